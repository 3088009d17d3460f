"""The same world, built once for the real code and once for the reference simulation."""
import math
import numpy as np
from mc import worlds as W
from mc import ref as R
from foxes.models.rotor_models import GridRotor, LevelRotor

CA = W.curve("A")
CB = W.curve("B")
CUR = {k: (list(c["ws"]), list(c["P"]), list(c["ct"])) for k, c in (("TA", CA), ("TB", CB), ("TArho", CA))}
DH = {"TA": (100.0, 90.0), "TB": (70.0, 70.0), "TArho": (100.0, 90.0)}


def kname(w):
    def f(x):
        return ("%g" % x).replace(".", "")
    if w.get("k") is not None:
        return "_k" + f(w["k"])
    if w.get("ka") is not None:
        s = "_" + ("ambka" if w.get("amb") else "ka") + f(w["ka"])
        return s + ("_kb" + f(w["kb"]) if w.get("kb") else "")
    return ""


def fname(w):
    """the model book name of a wake model"""
    m = w["m"]
    s = w["sup"].split("_", 1)[1]
    if m == "Jensen":
        return f"Jensen_{s}" + kname(w)
    if m == "Bastankhah2014":
        b = "B" if w.get("ind") == "Betz" else ""
        return ("Bastankhah025" if w.get("sbeta") == 0.25 else "Bastankhah2014") + b + f"_{s}" + kname(w)
    if m in ("TurbOPark", "Bastankhah2016"):
        b = "B" if w.get("ind") == "Betz" else ""
        return f"{m}{b}_{s}" + kname(w)
    if m == "Crespo":
        return f"CrespoHernandez_{s}" + kname(w)
    if m in ("IEC2019", "IEC2005"):
        return f"IECTI{m[3:]}_{s}" if w.get("opening", True) else f"IECTI{m[3:]}k_{s}" + kname(w)
    return f"{m}_{s}" if (s != "linear") else m


_ROT = {}


def rotor_points(name):
    if name not in _ROT:
        if name == "centre":
            _ROT[name] = [(0.0, 0.0, 1.0)]
        else:
            raw = name.endswith("_raw")
            b = name[:-4] if raw else name
            m = GridRotor(int(round(math.sqrt(int(b[4:])))), reduce=not raw) if b.startswith("grid") else LevelRotor(int(b[5:]), reduce=not raw)

            _ROT[name] = _pts(m)
    return _ROT[name]


def _pts(m):
    """design points and weights, from a real initialized rotor model"""
    spec = dict(xy=[[0.0, 0.0]], states=dict(kind="single", ws=[8.0], wd=[270.0]), wakes=["Jensen_linear_k007"], models=["TA"])
    with W.engine("single"):
        mb = W.mbook()
        mb.rotor_models["m"] = m
        a = W.build(dict(spec, mbook=mb, rotor_model="m"))
        a.calc_farm(finalize=False)
        p, w = np.array(m.design_points()), np.array(m.rotor_point_weights())
        a.finalize()
    return [(float(q[1]), float(q[2]), float(z)) for q, z in zip(p, w)]


def default_pw(w):
    if w["m"] in R.INDUCTION or w["m"] == "Bastankhah2016":
        return "grid9"
    return "top_hat" if w["m"] in R.TOPHAT else "axiwake6"


def real_spec(c):
    """c: dict(xy, types, states, wakes, rotor, pw, ground, algo, H, D, ktm, yaw, shear)"""
    wakes = c["wakes"]
    names = [fname(w) for w in wakes]
    n = len(c["xy"])
    types = c.get("types", ["TA"] * n)
    models = [[t] for t in types]
    spec = dict(xy=c["xy"], states=c["states"], wakes=names, rotor_model=c.get("rotor", "centre"), algo=c.get("algo", "Downwind"))
    if c.get("ktm"):
        models = [m + [c["ktm"][0]] for m in models]
    if c.get("yaw"):
        if c.get("yaw_abs"):
            models = [["yaw", "yaw2yawm"] + m for m in models]
            spec["tmodels"] = {"yaw": dict(cls="SetFarmVars", vars={"YAW": [[(w + g) % 360 for g in c["yaw"]] for w in c["states"]["wd"]]})}
        else:
            models = [["yaw", "yawm2yaw"] + m for m in models]
            spec["tmodels"] = {"yaw": dict(cls="SetFarmVars", pre_rotor=True, vars={"YAWM": [list(c["yaw"])] * len(c["states"]["ws"])})}
    spec["models"] = models
    for k in ("H", "D"):
        if c.get(k):
            spec[k] = c[k]
    pws = [w.get("pw") for w in wakes]
    if any(pws):
        spec["partial_wakes"] = {a: (p or default_pw(w)) for a, p, w in zip(names, pws, wakes)}
    if c.get("ground"):
        spec["ground_models"] = c["ground"]
    if c.get("frame"):
        spec["wake_frame"] = c["frame"]
    if c.get("algo_kw"):
        spec["algo_kw"] = c["algo_kw"]
    return spec


def ambient(c, i):
    s = c["states"]
    ws, wd, ti, rho = s["ws"][i], s["wd"][i], s.get("ti", [0.08] * 99)[i], s.get("rho", [1.225] * 99)[i]
    sh = c.get("shear")

    def f(x, y, z):
        v = ws if sh is None else ws * (z / sh[0]) ** sh[1]
        return dict(WS=v, WD=wd, TI=ti, RHO=rho)
    return f


def ref(c, i, march=True):
    n = len(c["xy"])
    types = c.get("types", ["TA"] * n)
    T = []
    for j in range(n):
        D, H = DH[types[j]]
        if c.get("H"):
            H = c["H"][j]
        if c.get("D"):
            D = c["D"][j]
        t = dict(x=c["xy"][j][0], y=c["xy"][j][1], H=H, D=D, curve=CUR[types[j]], rho0=1.225 if types[j] == "TArho" else None)
        if c.get("ktm"):
            t["k"] = tuple(c["ktm"][1])
        if c.get("yaw"):
            t["gamma"] = c["yaw"][j]
            t["yawmodel"] = True
            t["late_yaw"] = True
        T.append(t)
    hs = {None: [], "no_ground": [], "ground_mirror": [0.0]}.get(c.get("ground"), None)
    if hs is None:
        hs = [0.0, float(c["ground"].split("_h")[1])]
    wakes = [dict(w, pw=w.get("pw") or default_pw(w), heights=hs) for w in c["wakes"]]
    grids = {w["pw"]: rotor_points(w["pw"]) for w in wakes if w["pw"].startswith("grid")}
    out = R.Ref(T, ambient(c, i), wakes, rotor_points(c.get("rotor", "centre")), yaw_frame=c.get("yframe"), grids=grids)
    # known finding: with a late yaw setting the first turbine of a downwind calculation is not projected on its yawed rotor axis
    out.skip_first = bool(c.get("yaw")) and c.get("algo", "Downwind") == "Downwind" and not c.get("strict")
    return out.run() if march else out


def residual(c, i, fr):
    """one step of the reference starting from the reported results: a self-consistent result is reproduced"""
    r = ref(c, i, march=False)
    r.ambient()
    for j, t in enumerate(r.T):
        for v in ("REWS", "TI", "CT", "K"):
            if v in fr:
                t[v] = float(fr[v].to_numpy()[i, j])
    old = [dict(t) for t in r.T]
    new = []
    for j in range(len(r.T)):
        r.T = [dict(t) for t in old]
        r.evaluate(r.T[j], [r.T[q] for q in range(len(old)) if q != j])
        new.append(r.T[j])
    r.T = new
    return r


FV_MAP = {"REWS": "REWS", "TI": "TI", "P": "P", "CT": "CT", "AMB_REWS": "AMB_REWS", "AMB_TI": "AMB_TI", "AMB_P": "AMB_P", "AMB_CT": "AMB_CT", "RHO": "RHO"}


def compare(c, ctx, tag, pts=None, rtol=1e-7, vrs=("REWS", "TI", "P", "CT", "AMB_REWS", "AMB_P", "AMB_CT", "RHO"), prep=None, refresh=None):
    """run the real code and the reference, report the first difference

    prep: called with the algorithm before the calculation
    refresh: called with (reference, state index, farm results); default is the reference as it stands
    """
    spec = real_spec(c)
    if c.get("shear"):
        spec["states"] = dict(c["states"], profiles={"WS": {"type": "ShearedProfile"}}, fixed={"H": c["shear"][0], "shear": c["shear"][1]})
    with W.engine("single"):
        algo = W.build(spec)
        if prep is not None:
            prep(algo)
        fr = algo.calc_farm()
        pr = algo.calc_points(fr, np.array([pts] * len(c["states"]["ws"]), dtype=float)) if pts is not None else None
    ctx.evals += 1
    n = len(c["xy"])
    for i in range(len(c["states"]["ws"])):
        r = ref(c, i) if refresh is None else refresh(c, i, fr)
        ctx.trans += n * max(1, n - 1) * len(c["wakes"])
        for v in vrs:
            if v in ("TI",) and v not in fr:
                continue
            x = fr[v].to_numpy()[i]
            e = [t[v] for t in r.T]
            for j in range(n):
                if not math.isclose(x[j], e[j], rel_tol=rtol, abs_tol=1e-9):
                    ctx.fail(f"{tag}|{v}", f"{tag}: {v} of turbine {j} in state {i} is {x[j]!r}, reference {e[j]!r} (world {c})")
                    return None
        ctx.state((tag, i, tuple(round(t["REWS"], 9) for t in r.T)))
        if any(abs(t["REWS"] - t["AMB_REWS"]) > 1e-6 or abs(t["TI"] - t["AMB_TI"]) > 1e-6 for t in r.T):
            ctx.nt((tag, i))
        if pts is not None:
            for k, p in enumerate(pts):
                e = r.point(p)
                ctx.trans += n
                for v in ("WS", "TI", "WD", "AMB_WS", "AMB_TI"):
                    x = float(pr[v].to_numpy()[i, k])
                    if not math.isclose(x, e[v], rel_tol=rtol, abs_tol=1e-9):
                        ctx.fail(f"{tag}|point:{v}", f"{tag}: {v} at {p} in state {i} is {x!r}, reference {e[v]!r} (world {c})")
                        return None
    return fr
