"""P20 wake coordinates: frames agree in uniform flow, and yawed wakes are deflected as stated"""
import itertools
import numpy as np
from mc import refworld as RW
from mc import worlds as W
from foxes.core import WakeModel
import foxes.variables as FV
import foxes.constants as FC

ID = "P20"
LEVEL = "model_checking"
ASSUMPTIONS = ["uniform flow in each state, farms of 3-4 turbines, yaw angles between -30 and 30 degrees",
               "streamline step sizes 50 to 200 m, frames compared with rtol 1e-6"]

FRAMES = [dict(cls="YawedWakes"), dict(cls="Streamlines2D", step=100.0), dict(cls="Streamlines2D", step=50.0), dict(cls="FarmOrder"), dict(cls="YawedWakes", base_frame=dict(cls="Streamlines2D", step=200.0)),
          dict(cls="FarmOrder", base_frame=dict(cls="YawedWakes"))]
WK = [("Jensen_linear_k005", "rotor_points"), ("Jensen_quadratic_loc_k005", "top_hat"), ("Bastankhah2014_linear_k003", "grid9"), ("Bastankhah2014_linear_ka02", "axiwake6"), ("TurbOPark_linear_k004", "rotor_points"),
      ("Bastankhah2016_linear_k003", "grid9"), ("Bastankhah2016_linear_k003", "rotor_points"), ("Bastankhah2016_linear_k003", "centre"), ("TurbOPark_max_k004", "centre")]
XYS = {"row": [[0.0, 0.0], [410.0, 18.0], [800.0, -22.0], [1250.0, 20.0]], "stag": [[450.0, 5.0], [0.0, 60.0], [900.0, 40.0], [-20.0, -55.0]]}
YW = [dict(m="Bastankhah2016", k=0.03, pw="grid9"), dict(m="Bastankhah2016", ka=0.3, kb=0.004, pw="rotor_points"), dict(m="Bastankhah2016", k=0.05, pw="centre", ind="Betz"),
      dict(m="Jensen", k=0.05, pw="rotor_points"), dict(m="Bastankhah2014", k=0.03, pw="axiwake6"), dict(m="Bastankhah2014", k=0.03, pw="grid9"), dict(m="Jensen", k=0.05, pw="top_hat"), dict(m="TurbOPark", k=0.04, pw="centre")]


def cases(tier):
    out = [dict(k="same", f=f, w=w) for f in range(len(FRAMES)) for w in range(len(WK))]
    out += [dict(k="yaw", i=i, own=o) for i in range(len(YW)) for o in (0, 1)]
    out += [dict(k="line", f=f, sh=s) for f in range(-1, len(FRAMES)) for s in (0, 1)]
    return out


def states(th, n=4):
    wd = [270.0, 91.0, 5.0, 268.0, 184.0, 45.0] if not th else [7.5 * k for k in range(48)]
    m = len(wd)
    return dict(kind="table", ws=[7.0 + (k * 37 % 11) * 0.5 for k in range(m)], wd=wd, ti=[0.05 + (k * 17 % 9) * 0.01 for k in range(m)])


class Probe(WakeModel):
    """stores what the wake frame says about its centre lines"""

    def __init__(self):
        super().__init__()
        self.log = []

    def contribute(self, algo, mdata, fdata, tdata, downwind_index, wake_coos, wake_deltas):
        if algo.in_probe:
            return
        from foxes.core import TData
        algo.in_probe = True
        try:
            x = np.array([[1.0, 40.0, 160.0, 333.0, 800.0, 1700.0]] * fdata.n_states)
            p = algo.wake_frame.get_centreline_points(algo, mdata, fdata, downwind_index, x)
            coos = []
            off = np.array([[0.0, 0.0, 0.0], [0.0, 0.0, 25.0], [0.0, 0.0, -40.0]])
            for o in off:
                t = TData.from_points(p + o[None, None])
                coos.append(algo.wake_frame.get_wake_coos(algo, mdata, fdata, t, downwind_index)[:, :, 0])
            self.log.append((downwind_index, x, np.array(p), coos, np.array(fdata[FV.TXYH][:, downwind_index]), np.array(fdata[FV.WD][:, downwind_index])))
        finally:
            algo.in_probe = False


def run(case, ctx):
    th = ctx.tier == "thorough"
    st = states(th)
    k = case["k"]
    if k == "same":
        wk, pw = WK[case["w"]]
        f = FRAMES[case["f"]]
        algo = "Iterative" if "FarmOrder" in str(f) else "Downwind"
        for (n, xy), rot in itertools.product(XYS.items(), ("centre", "grid4")):
            spec = dict(xy=xy, models=["yz", "TA", "kTI_02"], states=st, wakes=[wk], partial_wakes=pw, rotor_model=rot, algo=algo,
                        tmodels={"yz": dict(cls="SetFarmVars", pre_rotor=False, vars={"YAWM": [[0.0] * 4] * len(st["ws"])})},
                        algo_kw=dict(mod_cutin=dict(modify_ct=False)) if algo == "Iterative" else {})
            pts = [[(650.0, 30.0, 90.0), (1300.0, -20.0, 60.0), (470.0, 80.0, 140.0), (-300.0, 0.0, 90.0), (100.0, 0.0, 30.0), (200.0, 900.0, 90.0), (10.0, -700.0, 80.0)]] * len(st["ws"])
            a = W.run_both(dict(spec, wake_frame="rotor_wd"), pts)
            b = W.run_both(dict(spec, wake_frame=f), pts)
            ctx.evals += 2
            ctx.trans += 2 * len(st["ws"]) * 4
            for q, x, y in zip(("farm", "points"), a, b):
                x, y = W.obs(x), W.obs(y)
                d = W.diff(x, y, rtol=1e-6, atol=1e-6, skip=[v for v in set(x) | set(y) if "ORDER" in v or "order" in v])
                if d is not None:
                    ctx.fail(f"same:{f['cls']}|{wk}/{pw}|{q}|{d[0]}", f"{f} vs RotorWD, {wk}, {pw}, rotor {rot}, farm {n}, {q}: {d[1]}")
                    break
            ctx.state((k, case["f"], W.digest(W.obs(b[1]))))
        ctx.nt(repr(case))
        return
    if k == "yaw":
        w = dict(YW[case["i"]], sup="ws_linear")
        bp = w["m"] == "Bastankhah2016"
        kk = {q: w[q] for q in ("k", "ka", "kb") if q in w}
        own = dict(k=0.045) if case["own"] and not bp else None
        yf = dict(own or kk, ind=w.get("ind", "Madsen") if bp else "Madsen")
        fr = dict(cls="YawedWakes", **(own or {}))
        for (n, xy), yaw, rot in itertools.product(XYS.items(), ([20.0, -15.0, 30.0, -30.0], [0.0, 10.0, 0.0, -5.0], [-25.0, 25.0, 0.0, 8.0]), ("centre", "grid9")):
            c = dict(xy=xy, types=["TA", "TB", "TA", "TA"], states=st, wakes=[w], rotor=rot, yaw=yaw, frame=fr, yframe=yf, yaw_abs=case["own"])
            RW.compare(c, ctx, f"yaw:{RW.fname(w)}/{w['pw']}", [(650.0, 30.0, 90.0), (1300.0, -20.0, 60.0), (470.0, 80.0, 140.0), (-300.0, 0.0, 90.0), (200.0, 900.0, 90.0), (10.0, -700.0, 80.0)], rtol=1e-6)
        ctx.nt(repr(case))
        return
    f = FRAMES[case["f"]] if case["f"] >= 0 else dict(cls="RotorWD")
    s2 = st if not case["sh"] else dict(kind="field", n=4, extra=50000.0, grid=dict(x0=-30000.0, y0=-30000.0, dx=30000.0, dy=30000.0))
    yawed = "Yawed" in str(f)
    ns = len(st["ws"]) if not case["sh"] else 4
    for n, xy in XYS.items():
        for yaw in ((0.0, 0.0, 0.0, 0.0), (20.0, -10.0, 15.0, -25.0)):
            if any(yaw) and not yawed:
                continue
            spec = dict(xy=xy, models=["yz", "TA"], states=s2, wakes=["PB"], partial_wakes="rotor_points", wake_frame=f, tmodels={"yz": dict(cls="SetFarmVars", vars={"YAWM": [list(yaw)] * ns})})
            if yawed:
                spec["wakes"] = ["Bastankhah2016_linear_k004", "PB"]
                spec["partial_wakes"] = {q: "rotor_points" for q in spec["wakes"]}
            mb = W.mbook(spec)
            pb = mb.wake_models["PB"] = Probe()
            pb.name = "PB"
            with W.engine("numpy", chunk_size_states=2):
                a = W.build(dict(spec, mbook=mb))
                a.in_probe = False
                a.calc_farm()
            ctx.evals += 1
            for di, x, p, coos, h, wd in pb.log:
                ctx.trans += x.size * 3
                for j, dz in enumerate((0.0, 25.0, -40.0)):
                    exp = np.stack([x, np.zeros_like(x), np.zeros_like(x) + dz], axis=-1)
                    e = np.abs(coos[j] - exp)
                    tol = np.array([2e-2, 2e-2, 1e-6]) * (1 + (0 if not case["sh"] else 300)) if case["sh"] or yawed else np.array([1e-6] * 3)
                    if np.any(e > tol):
                        q = np.argwhere(e > tol)[0]
                        ctx.fail(f"line:{f['cls']}", f"{f}: centre line point at x={x[q[0], q[1]]} has wake coordinates {coos[j][q[0], q[1]]}, expected {exp[q[0], q[1]]} (turbine {di}, farm {n}, yaw {yaw})")
                        break
                # starts at the turbine, in the local wind direction
                d0 = p[:, 0] - h
                if not any(yaw) and (np.abs(d0[:, 0] + np.sin(np.deg2rad(wd))).max() > 2e-2 or np.abs(d0[:, 1] + np.cos(np.deg2rad(wd))).max() > 2e-2):
                    ctx.fail(f"line0:{f['cls']}", f"{f}: centre line does not start at the rotor in wind direction: {d0} for wd {wd}")
            ctx.state((k, case["f"], case["sh"], n, yaw))
    ctx.nt(repr(case))
