"""P13 the iterative algorithm ends in the self-consistent solution"""
import itertools
import numpy as np
from mc import refworld as RW
from mc import worlds as W

ID = "P13"
LEVEL = "model_checking"
ASSUMPTIONS = ["farms of up to 5 turbines, up to 14 wind directions, homogeneous background",
               "tolerance 1e-5 (with relaxation 1e-4): the convergence criterion compares two iterations",
               "turbine types with the cut-in smoothing of the iterative algorithm switched off, or operation above the smoothed region"]

FARMS = {"row": [[0.0, 0.0], [310.0, 8.0], [600.0, -12.0], [950.0, 20.0]], "stag": [[0.0, 60.0], [-20.0, -55.0], [450.0, 5.0], [900.0, 40.0]],
         "quad": [[0.0, 0.0], [420.0, 15.0], [10.0, 430.0], [440.0, 405.0], [-380.0, 220.0]], "one": [[10.0, 20.0]]}
KA = dict(ka=0.25, kb=0.005)


def chains():
    out = []
    J, B, T = dict(m="Jensen", pw="rotor_points"), dict(m="Bastankhah2014", pw="rotor_points"), dict(m="TurbOPark", pw="axiwake6")
    B6 = dict(m="Bastankhah2016", pw="grid9")
    C, I9, I5 = dict(m="Crespo", pw="rotor_points"), dict(m="IEC2019", pw="top_hat"), dict(m="IEC2005", pw="centre")
    for w, s in itertools.product((J, B, T, B6), ("linear", "quadratic_loc", "max_amb", "product", "linear_lim")):
        out.append([dict(w, sup="ws_" + s, k=0.04)])
    for w, t, s in itertools.product((J, B, T, B6), (C, I9, I5), ("quadratic", "max")):
        tt = dict(t, sup="ti_" + s)
        if t is C:
            tt.update(KA)
        ww = dict(w, sup="ws_linear", **KA)
        out.append([ww, tt])
        out.append([tt, ww])
    # two wind wake models at once
    out.append([dict(J, sup="ws_linear", k=0.04, pw="centre"), dict(B, sup="ws_quadratic", k=0.03)])
    return out


IND = ["VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020"]
RELAX = [dict(pre_wake=dict(CT=0.5)), dict(last=dict(CT=0.5)), dict(pre_wake=dict(REWS=0.3, CT=0.3)), dict(last=dict(CT=0.2, TI=0.4)), dict(pre_wake=dict(CT=0.4), last=dict(REWS=0.4)),
         dict(post_rotor=dict(CT=0.5)), dict(pre_rotor=dict(CT=0.5)), dict(first=dict(CT=0.5))]


def cases(tier):
    n = len(chains())
    out = [dict(k="chain", i=i) for i in range(n)]
    out += [dict(k="relax", r=r, i=i) for r in range(len(RELAX)) for i in (0, n - 1, 21)]
    out += [dict(k="ind", m=m, wk=wk) for m in IND for wk in range(3)]
    out += [dict(k="cutin", i=i) for i in (0, 5, 20)]
    out += [dict(k="cutmix", types=list(q)) for q in itertools.product("AB", repeat=3) if len(set(q)) > 1]
    return out


def states(th):
    ws, wd, ti = [9.0, 10.5, 7.0, 12.0, 8.0, 14.0], [270.0, 90.0, 200.0, 268.0, 0.0, 93.0], [0.06, 0.1, 0.14, 0.08, 0.1, 0.05]
    if th:
        wd += [10.0 * k for k in range(36)]
        ws += [6.0 + 0.2 * k for k in range(36)]
        ti += [0.04 + 0.004 * k for k in range(36)]
    return dict(kind="table", ws=ws, wd=wd, ti=ti)


def run(case, ctx):
    th = ctx.tier == "thorough"
    st = states(th)
    pts = [(700.0, 30.0, 90.0), (1300.0, -20.0, 60.0), (-300.0, 5.0, 90.0)]
    kw = dict(mod_cutin=dict(modify_ct=False))
    farms = list(FARMS.items())
    types = lambda xy: [["TA"] * len(xy), (["TA", "TB"] * 3)[:len(xy)]]
    k = case["k"]
    if k == "chain":
        wk = chains()[case["i"]]
        for (fn, xy), ti in itertools.product(farms, (0, 1)):
            c = dict(xy=xy, types=types(xy)[ti], states=st, wakes=wk, rotor="grid9", algo="Iterative", algo_kw=kw)
            RW.compare(c, ctx, "chain:" + "+".join(RW.fname(w) + "/" + w["pw"] for w in wk), pts, rtol=1e-5)
    elif k == "cutin":
        # default settings: power curves and thrust above the smoothed region are untouched
        wk = chains()[case["i"]]
        for fn, xy in farms:
            for w0 in ((3.2, 2.0, 3.9, 1.0, 2.9, 3.5), (12.0, 13.0, 14.5, 16.0, 20.0, 24.9)):
                low = w0[0] < 4
                s2 = dict(st, ws=list(w0), wd=st["wd"][:6], ti=st["ti"][:6])
                c = dict(xy=xy, types=types(xy)[1], states=s2, wakes=wk, rotor="centre", algo="Iterative", algo_kw={})
                if low:
                    c["wakes"] = [dict(m="Jensen", sup="ws_linear", k=0.04, pw="centre")]
                    RW.compare(c, ctx, "cutin:low", None, rtol=1e-5, vrs=("AMB_REWS", "AMB_P"))
                else:
                    RW.compare(c, ctx, "cutin:high", None, rtol=1e-5)
    elif k == "cutmix":
        # each turbine type of a mixed farm is treated as it is alone
        s2 = dict(kind="table", ws=[2.0 + 0.25 * j for j in range(13)], wd=[270.0] * 13, ti=[0.08] * 13)
        tt = ["T" + q for q in case["types"]]
        for al in (kw, {}, dict(mod_cutin=dict(modify_P=True))):
            res = []
            for ty in (tt, *[[q] for q in tt]):
                c = dict(xy=[[0.0, 3e4 * j] for j in range(len(ty))], types=ty, states=s2, wakes=[dict(m="Jensen", sup="ws_linear", k=0.04, pw="centre")], rotor="centre", algo="Iterative", algo_kw=dict(al))
                with W.engine("single"):
                    res.append(W.build(RW.real_spec(c)).calc_farm())
            ctx.evals += 4
            for j in range(3):
                for v in ("CT", "P", "REWS"):
                    ctx.trans += 13
                    a, b = res[0][v].to_numpy()[:, j], res[1 + j][v].to_numpy()[:, 0]
                    if not np.allclose(a, b, rtol=1e-9, atol=1e-9):
                        ctx.fail("cutmix", f"types {tt}, {al}: {v} of turbine {j} is {a.tolist()} but {b.tolist()} in a farm of its own")
    elif k == "relax":
        wk = chains()[case["i"]]
        rl = RELAX[case["r"]]

        def prep(a):
            for ep, v in rl.items():
                a.set_urelax(ep, **v)
        for fn, xy in farms:
            c = dict(xy=xy, types=types(xy)[1], states=st, wakes=wk, rotor="centre", algo="Iterative", algo_kw=dict(kw, max_it=200))
            RW.compare(c, ctx, f"relax:{'+'.join(sorted(rl))}", pts, rtol=1e-4, prep=prep)
    elif k == "ind":
        wk = [dict(m=case["m"], sup="ws_linear", pw="rotor_points")]
        extra = [dict(m="Jensen", sup="ws_linear", k=0.05, pw="rotor_points"), dict(m="Bastankhah2014", sup="ws_linear", pw="rotor_points", **KA),
                 dict(m="IEC2019", sup="ti_max", pw="rotor_points")]
        wk = [wk + extra[:1], wk + extra[1:], extra[1:] + wk][case["wk"]]
        for (fn, xy), ti in itertools.product(farms, (0, 1)):
            c = dict(xy=xy, types=types(xy)[ti], states=st, wakes=wk, rotor="grid9", algo="Iterative", algo_kw=dict(kw, max_it=60))
            RW.compare(c, ctx, "ind:" + case["m"], pts, rtol=2e-5, refresh=RW.residual)
    ctx.nt(repr(case))
