"""P10 single wakes follow their published formulas, everywhere around the turbine"""
import itertools, math
import numpy as np
from foxes.models.wake_models.wind import TurbOParkWakeIX
from mc import ref as R
from mc import refworld as RW
from mc import worlds as W

ID = "P10"
LEVEL = "model_checking"
ASSUMPTIONS = ["one wake causing turbine (two diameters, three wind speeds: low, high and vanishing thrust), homogeneous background",
               "points: grid of 13 (thorough 31) downstream x 9 (17) lateral x 3 (5) vertical positions"]

KS = [dict(k=0.04), dict(k=0.075), dict(ka=0.2), dict(ka=0.4, amb=True), dict(ka=0.3, kb=0.01), dict(ka=0.3, kb=0.01, amb=True), dict(ktm=("kTI_02", (0.2, 0.0, "TI"))),
      dict(ktm=("kTI_amb_04", (0.4, 0.0, "AMB_TI"))), dict(ktm=("kTI_03_001", (0.3, 0.01, "TI")))]


def models():
    out = []
    for k in KS:
        for ind in ("Madsen", "Betz"):
            for sb in (0.2, 0.25):
                out.append(dict(m="Bastankhah2014", ind=ind, sbeta=sb, **k))
            out.append(dict(m="TurbOPark", ind=ind, **k))
            out.append(dict(m="Bastankhah2016", ind=ind, **k))
        out.append(dict(m="Jensen", **k))
        out.append(dict(m="Crespo", **k))
        out.append(dict(m="IEC2019", opening=False, **k))
        out.append(dict(m="IEC2005", opening=False, **k))
    out += [dict(m="IEC2019"), dict(m="IEC2005")]
    out += [dict(m=m) for m in ("VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020")]
    return out


IXTI = [dict(m="Crespo", sup="ti_linear", k=0.05), dict(m="Crespo", sup="ti_max", k=0.03), dict(m="IEC2019", sup="ti_quadratic", opening=True), dict(m="IEC2005", sup="ti_linear", opening=False, k=0.06)]


def cases(tier):
    out = [dict(i=i) for i in range(len(models()))]
    out += [dict(k="ix", ti=t, own=o, var=v, dx=dx, ind=i) for t in range(len(IXTI)) for o in (True, False) for v in ("TI", "AMB_TI") for dx, i in ((50.0, "Madsen"), (130.0, "Betz"))]
    return out


def line_integral(c, x, dx, own, wt, T, n, m, ti):
    """integral of the turbulence intensity along the centre line of turbine c, right end points of steps dx"""
    def at(u):
        if c["var"] == "AMB_TI":
            return ti
        S = R.Superp(wt["sup"])
        for s in T:
            if own and s is not T[c["j"]]:
                continue
            d = np.array(T[c["j"]]["xy"]) + u * n - np.array(s["xy"])
            S.add(R.radial(wt, float(d @ n), math.hypot(float(d @ m), T[c["j"]]["H"] - s["H"]), s), s)
        return ti + (S.final(ti) if S.items else 0.0)
    tot, i = 0.0, 1
    while i * dx <= x + 1e-9:
        tot += at(i * dx) * dx
        i += 1
    rest = x - (i - 1) * dx
    return tot + (at(i * dx) * rest if rest > 1e-9 else 0.0)


def ix(case, ctx):
    """TurbOPark with the turbulence intensity integrated along the centre line, from the reported turbine results"""
    wt = IXTI[case["ti"]]
    kk, sb = 0.04, 0.25
    ws, ti = [9.0, 7.0, 11.5], [0.06, 0.11, 0.09]
    for xy, H, wd in ([[[0.0, 0.0]], [90.0], 270.0], [[[0.0, 0.0], [433.0, 21.0], [941.0, -27.0]], [90.0, 80.0, 100.0], 268.0], [[[0.0, 0.0], [300.0, 397.0]], [90.0, 90.0], 217.0]):
        mb = W.mbook()
        mb.wake_models["ix"] = TurbOParkWakeIX("ws_linear", dx=case["dx"], self_wake=case["own"], induction=case["ind"], k=kk, ti_var=case["var"])
        tn = RW.fname(wt)
        spec = dict(xy=xy, H=H, states=dict(kind="table", ws=ws, wd=[wd] * 3, ti=ti, rho=[1.225] * 3), wakes=["ix", tn], models=["TA"], algo="Iterative", rotor_model="centre", partial_wakes="centre", mbook=mb)
        a = np.deg2rad(wd)
        n, m = np.array([-np.sin(a), -np.cos(a)]), np.array([np.cos(a), -np.sin(a)])
        pts = [tuple(u * 100.0 * n + v * 100.0 * m) + (z,) for u in (-3.0, -0.3, 0.4, 1.7, 3.3, 5.1, 8.2, 14.0) for v in (-1.1, -0.3, 0.2, 0.6, 1.6) for z in (90.0, 41.0)]
        fr, pr = W.run_both(spec, pts)
        ctx.evals += 1
        for i in range(3):
            T = [dict(xy=xy[j], H=H[j], D=100.0, **{v: float(fr[v].to_numpy()[i, j]) for v in ("CT", "REWS", "TI", "AMB_TI", "AMB_REWS")}) for j in range(len(xy))]
            for q, p in enumerate(pts):
                d = 0.0
                for j, s in enumerate(T):
                    dx = np.array(p[:2]) - s["xy"]
                    x, y = float(dx @ n), float(dx @ m)
                    if x <= 1e-8 or s["CT"] <= 1e-8:
                        continue
                    al = R.ct2a(case["ind"], s["CT"])
                    sg = s["D"] * sb * math.sqrt((1 - al) / (1 - 2 * al)) + kk * line_integral(dict(j=j, var=case["var"]), x, case["dx"], case["own"], wt, T, n, m, ti[i])
                    amp = max(-2 * R.ct2a(case["ind"], s["CT"] / (8 * (sg / s["D"]) ** 2)), -1.0)
                    d += amp * math.exp(-0.5 * (math.hypot(y, p[2] - s["H"]) / sg) ** 2) * s["REWS"]
                x = float(pr["WS"].to_numpy()[i, q])
                ctx.trans += len(T)
                if not math.isclose(x, ws[i] + d, rel_tol=1e-5):
                    ctx.fail(f"ix|{case['var']}|{case['own']}", f"{case}: farm {xy}, WS at {p} in state {i} is {x}, reference {ws[i] + d}")
                    return
                if abs(d) > 1e-3:
                    ctx.nt((str(case), wd, i, q))
            ctx.state((str(case), wd, i, tuple(round(t["REWS"], 8) for t in T)))


def run(case, ctx):
    if case.get("k") == "ix":
        return ix(case, ctx)
    w = dict(models()[case["i"]])
    ktm = w.pop("ktm", None)
    w["sup"] = ("ti_" if w["m"] in ("Crespo", "IEC2019", "IEC2005") else "ws_") + "linear"
    th = ctx.tier == "thorough"
    for ty, (wd, rot) in itertools.product(("TA", "TB"), ((270.0, "centre"), (33.0, "grid9"))):
        D = RW.DH[ty][0]
        H = RW.DH[ty][1]
        a = np.deg2rad(wd)
        n, m = np.array([-np.sin(a), -np.cos(a)]), np.array([np.cos(a), -np.sin(a)])
        xs = [-30.0, -8.0, -2.5, -0.4, 0.3, 1.0, 2.2, 3.5, 5.0, 7.0, 11.0, 25.0, 80.0]
        ys = [-4.0, -1.3, -0.6, -0.2, 0.05, 0.49, 0.51, 0.9, 2.1]
        zs = [0.1, 0.9, 2.0]
        if th:
            xs = sorted(xs + [-100.0, -15.0, -5.0, -1.5, -1.0, -0.7, -0.1, 0.1, 0.6, 1.5, 2.8, 4.2, 6.0, 9.0, 15.0, 40.0, 150.0, 400.0])
            ys = sorted(ys + [-9.0, -2.7, -0.95, -0.45, 0.3, 0.7, 1.5, 5.5])
            zs = sorted(zs + [0.5, 1.3])
        pts = [tuple(x * D * n + y * D * m) + (z * H,) for x in xs for y in ys for z in zs]
        ws = [9.0, 13.5, 5.0, 30.0] if not th else [9.0, 13.5, 5.0, 30.0, 4.5, 11.0, 20.0, 24.9]
        ti = [0.06, 0.14, 0.2, 0.1, 0.09, 0.03, 0.3, 0.12][:len(ws)]
        c = dict(xy=[[0.0, 0.0]], types=[ty], states=dict(ws=ws, wd=[wd] * len(ws), ti=ti, kind="table"), wakes=[w], rotor=rot, ktm=ktm)
        RW.compare(c, ctx, f"{RW.fname(w)}{'+' + ktm[0] if ktm else ''}", pts)
        ctx.nt((case["i"], ty, wd))
