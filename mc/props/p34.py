"""P34 dynamic wakes are carried along by the wind of each moment"""
import itertools, math
import numpy as np
import pandas as pd
from mc import ref as R
from mc import refworld as RW
from mc import worlds as W
from mc.catalog import w
from foxes.input.states import Timeseries
import foxes.variables as FV

ID = "P34"
LEVEL = "model_checking"
ASSUMPTIONS = ["time series that are uniform in space, all wind histories of 4 (thorough: 5) moments over an alphabet of three winds, regular and irregular time steps, three turbines, both chunked and in one piece",
               "reference: a marker leaves every rotor at every moment and moves with the wind of each moment; points near the border between two markers are not compared; rtol 1e-5 (iterations)",
               "timelines follow the line of markers, dynamic wakes the path of the nearest marker"]
XY = [[0.0, 0.0], [430.0, 40.0], [890.0, -35.0]]
WIND = {"a": (8.0, 270.0), "b": (10.5, 283.0), "c": (6.5, 255.0)}
WIND2 = {"a": (9.0, 265.0), "b": (7.0, 350.0), "c": (11.0, 90.0)}
TIV = [0.06, 0.11, 0.08, 0.09, 0.07, 0.1, 0.05]
PTS = [[x, y, z] for x, y in itertools.product([-413.0, 177.0, 655.0, 1207.0, 1793.0, 2611.0], [-387.0, -101.0, 13.0, 149.0, 521.0]) for z in (90.0,)] + [[1001.0, 17.0, 61.0], [277.0, -9.0, 133.0]]
WK = [dict(m="Bastankhah2014", sup="ws_linear", k=0.04), dict(m="Crespo", sup="ti_linear", k=0.03)]
FRAMES = {"timelines": dict(cls="Timelines"), "dyn": dict(cls="DynamicWakes", max_length_km=30, max_age=20), "dyn_age": dict(cls="DynamicWakes", max_length_km=30, max_age=3), "seq": dict(cls="SeqDynamicWakes"),
          "timelines_dt": dict(cls="Timelines", dt_min=1), "dyn_dt": dict(cls="DynamicWakes", max_length_km=30, max_age=20, dt_min=1), "seq_dt": dict(cls="SeqDynamicWakes", dt_min=1)}
STEPS = {"reg": [60] * 7, "irr": [60, 90, 40, 75, 60, 30, 90], "dt": None}


def cases(tier):
    n = 4 if tier == "quick" else 5
    out = []
    for f in FRAMES:
        for a in (0, 1):
            for t in (("dt",) if f.endswith("_dt") else ("reg", "irr")):
                for h in itertools.product("abc", repeat=2):
                    out.append(dict(frame=f, alpha=a, steps=t, start="".join(h), n=n))
    out += [dict(k="steady", frame=f, wind=q) for f in FRAMES for q in range(3)]
    return out


def spec_of(case, hist, alpha, dts):
    wv = [alpha[q] for q in hist]
    n = len(hist)
    t = pd.Timestamp("2020-01-01") + pd.to_timedelta(np.concatenate([[0], np.cumsum(dts[:n - 1])]), unit="s")
    df = pd.DataFrame(dict(ws=[q[0] for q in wv], wd=[q[1] for q in wv], ti=TIV[:n], rho=[1.225] * n), index=pd.DatetimeIndex(t, name="Time") if case["steps"] != "dt" else np.arange(n))
    st = Timeseries(df, var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO])
    f = case["frame"]
    seq = f.startswith("seq")
    return w(xy=XY, states=st, wakes=[RW.fname(q) for q in WK], models=["TA"], wake_frame=FRAMES[f], rotor_model="centre", partial_wakes="centre", algo="Sequential" if seq else "Iterative",
             algo_kw=dict(points=np.array(PTS)) if seq else {})


class Markers:
    """what leaves the rotor at (x, y), and where it is at every moment"""

    def __init__(self, case, hist, alpha, dts):
        self.n = len(hist)
        self.d = []
        for k, q in enumerate(hist):
            ws, wd = alpha[q]
            # the last moment lasts as long as the one before
            dt = dts[k] if k < self.n - 1 else dts[max(self.n - 2, 0)]
            a = math.radians(wd)
            self.d.append(np.array([-ws * math.sin(a) * dt, -ws * math.cos(a) * dt]))
        self.f = case["frame"].split("_")[0]
        self.age = FRAMES[case["frame"]].get("max_age", 10 ** 6)

    def coos(self, T, p, k):
        """moment of origin and wake coordinates at moment k: (j, x, y), None outside, "?" if undecided"""
        ms = []
        for j in range(k + 1):
            if k - j >= self.age:
                continue
            q = np.array(T, dtype=float) + sum(self.d[j:k], np.zeros(2))
            ms.append((float(np.hypot(*(p[:2] - q))), j, q, sum(float(np.hypot(*v)) for v in self.d[j:k])))
        ms.sort(key=lambda m: m[0])
        if len(ms) > 1 and ms[1][0] - ms[0][0] < 1e-3:
            return "?"
        dist, j, q, l = ms[0]
        if self.f == "timelines":
            v = self.d[j]
        elif self.f == "dyn":
            v = self.d[k] if k - j < self.age - 1 else self.d[k - 1]
        else:
            v = self.d[k]
        s = float(np.hypot(*v))
        e = v / s
        px = float((p[:2] - q) @ e)
        if abs(abs(px) - s) < 1e-3 or abs(px + l) < 1e-3:
            return "?"
        if abs(px) > s:
            return "?" if self.f == "timelines" else None
        return j, px + l, float((p[:2] - q) @ np.array([-e[1], e[0]]))


def expected(M, fr, p, k, sources):
    """wind speed and turbulence intensity at a point, from the reported turbine data; None if undecided"""
    amb = {"WS": fr["AMB_WS_k"][k], "TI": fr["AMB_TI_k"][k]}
    out = {}
    for v, wk in zip(("WS", "TI"), WK):
        S = R.Superp(wk["sup"])
        for s in sources:
            c = M.coos(XY[s], p, k)
            if c == "?":
                return None
            if c is None:
                continue
            j, x, y = c
            src = dict(D=100.0, **{q: float(fr[q][j, s]) for q in ("CT", "REWS", "TI", "AMB_REWS", "AMB_TI")})
            r = math.hypot(y, p[2] - 90.0)
            if wk["m"] == "Crespo" and x > 1e-8 and src["CT"] > 1e-8 and abs(r - R.ti_radius(wk, x, src)) < 1e-2:
                return None
            S.add(R.radial(wk, x, r, src), src)
        out[v] = amb[v] + (S.final(amb[v]) if S.items else 0.0)
    return out


def calc(spec, n, size):
    if spec["algo"] == "Sequential":
        with W.engine("single"):
            a = W.build(spec)
            fs = list(a)
            return a.farm_results, a.point_results
    with W.engine("single" if size is None else "numpy", **({} if size is None else dict(chunk_size_states=size, chunk_size_points=7))):
        a = W.build(spec)
        fr = a.calc_farm()
        return fr, a.calc_points(fr, np.array([PTS] * n))


def steady(case, ctx):
    """in constant wind the wakes that have arrived are those of the steady calculation, and there are no others"""
    for wd in (270.0, 283.0, 181.0):
        ws = [7.0, 8.0, 10.0][case["wind"]]
        n = 9
        f = case["frame"]
        dts = [60] * n
        c = dict(case, steps="dt" if f.endswith("_dt") else "reg")
        spec = spec_of(c, "s" * n, {"s": (ws, wd)}, dts) if n <= len(TIV) else None
        if spec is None:
            n = len(TIV)
            spec = spec_of(c, "s" * n, {"s": (ws, wd)}, dts)
        # the turbulence intensity is constant as well
        df = spec["states"].data_source
        df["ti"] = 0.08
        fr, pr = calc(spec, n, None)
        st = w(xy=XY, states=dict(kind="table", ws=[ws], wd=[wd], ti=[0.08], rho=[1.225]), wakes=spec["wakes"], models=["TA"], rotor_model="centre", partial_wakes="centre", algo="Iterative")
        g, q = W.run_both(st, np.array([PTS]))
        ctx.evals += 2
        s = ws * 60.0
        a = math.radians(wd)
        e = np.array([-math.sin(a), -math.cos(a)])
        age = FRAMES[f].get("max_age", 10 ** 6)
        for v, x, y, pts in (("REWS", fr["REWS"].to_numpy(), g["REWS"].to_numpy()[0], [t + [90.0] for t in XY]), ("WS", pr["WS"].to_numpy(), q["WS"].to_numpy()[0], PTS), ("TI", pr["TI"].to_numpy(), q["TI"].to_numpy()[0], PTS)):
            for k in range(n):
                for i, p in enumerate(pts):
                    # distances behind all turbines: arrived, if the markers of all of them have passed
                    l = [float((np.array(p[:2]) - t) @ e) for t in XY]
                    l = [u for u in l if u > 1e-6]
                    ctx.trans += 1
                    # wakes of all markers reach from the rotor to one step ahead of the first marker
                    far = max(l) if l else 0.0
                    first = min(k, age - 1) * s
                    if all(u > first + s + 1.0 for u in l):
                        ref = ws if v != "TI" else 0.08
                        what = "no wake has arrived"
                    elif k * s > 2200.0 + far and far < first:
                        ref, what = float(y[i]), "all wakes have arrived"
                    else:
                        continue
                    if not math.isclose(float(x[k, i]), ref, rel_tol=1e-5):
                        ctx.fail(f"steady|{f}|{v}", f"constant wind {ws} m/s, {wd}: moment {k}, {p}: {v} = {x[k, i]}, {what}: {ref}")
                        return
                    ctx.counters[what] += 1
                    if what.startswith("all") and l:
                        ctx.nt((str(case), wd, v, k, i))
            ctx.state((str(case), wd, v, W.digest({v: (("a", "b"), x)})))


def run(case, ctx):
    if case.get("k") == "steady":
        return steady(case, ctx)
    n = case["n"]
    f = case["frame"]
    alpha = (WIND, WIND2)[case["alpha"]]
    dts = STEPS[case["steps"]] or [60] * 7
    prev = {}
    for ih, tail in enumerate(itertools.product("abc", repeat=n - 2)):
        hist = case["start"] + "".join(tail)
        spec = spec_of(case, hist, alpha, dts)
        size = [None, 1, 3, 2][ih % 4]
        fr, pr = calc(spec, n, size)
        ctx.evals += 1
        F = {v: fr[v].to_numpy() for v in ("REWS", "CT", "TI", "AMB_REWS", "AMB_TI")}
        F["AMB_WS_k"] = [alpha[q][0] for q in hist]
        F["AMB_TI_k"] = TIV
        M = Markers(case, hist, alpha, dts)
        bad = False
        for k in range(n):
            for t in range(3):
                src = [s for s in range(3) if s != t]
                e = expected(M, F, np.array(XY[t] + [90.0]), k, src)
                ctx.trans += 1
                if e is None:
                    ctx.counters["undecided"] += 1
                    continue
                for v, x in (("WS", F["REWS"][k, t]), ("TI", F["TI"][k, t])):
                    if not math.isclose(x, e[v], rel_tol=1e-5):
                        ctx.fail(f"{f}|turbine|{v}", f"{case}, history {hist}, chunks of {size}: {v} at turbine {t}, moment {k}: {x}, markers {e[v]}")
                        bad = True
                if abs(e["WS"] - F["AMB_WS_k"][k]) > 1e-6:
                    ctx.nt((f, case["alpha"], case["steps"], hist, k, t))
            for i, p in enumerate(PTS):
                e = expected(M, F, np.array(p), k, range(3))
                ctx.trans += 1
                if e is None:
                    ctx.counters["undecided"] += 1
                    continue
                for v in ("WS", "TI"):
                    x = float(pr[v].to_numpy()[k, i])
                    if not math.isclose(x, e[v], rel_tol=1e-5):
                        if not bad:
                            ctx.fail(f"{f}|point|{v}", f"{case}, history {hist}, chunks of {size}: {v} at {p}, moment {k}: {x}, markers {e[v]}")
                        bad = True
            # the past does not depend on the future
            key = hist[:k + 1]
            now = np.concatenate([F["REWS"][k], F["CT"][k], F["TI"][k], pr["WS"].to_numpy()[k], pr["TI"].to_numpy()[k]])
            if key in prev and not np.allclose(prev[key], now, rtol=1e-5, atol=1e-6):
                if k < n - 1 or case["steps"] != "irr":
                    ctx.fail(f"{f}|causal", f"{case}: results after {key} depend on what follows (history {hist})")
            prev[key] = now
        ctx.state((f, case["alpha"], case["steps"], hist, W.digest(W.obs(fr))))
