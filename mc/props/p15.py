"""P15 point models compute what they state, on states and on point calculations"""
import copy, itertools, os
import numpy as np
import pandas as pd
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import ExtendedStates, PointDataModelList
from foxes.input import states as fst
from foxes.models.point_models import TKE2TI, Ustar2TI, SetUniformData, WakeDeltas
from mc import worlds as W
from mc.catalog import w, XY3

ID = "P15"
LEVEL = "model_checking"
ASSUMPTIONS = ["3 turbines, 4 states; all sequences of up to three point models (with parameters from a list) in all forms of attachment to states, in point calculations, chunked and threaded",
               "point models that overwrite the wind speed come first in a sequence; wake deltas only in waked point calculations"]
ROWS = dict(ws=[8.0, 9.5, 10.5, 6.0], wd=[270.0, 93.0, 10.0, 181.0], ti=[0.06, 0.1, 0.08, 0.12], rho=[1.225, 1.2, 1.25, 1.1], tke=[0.4, 0.6, 0.9, 0.25], us=[0.3, 0.45, 0.2, 0.38], w=[0.1, 0.4, 0.3, 0.2])
COL = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho", FV.TKE: "tke", FV.USTAR: "us"}
PTS = [[50.0, 10.0, 90.0], [700.0, 30.0, 40.0], [1500.0, -50.0, 140.0], [-300.0, 5.0, 90.0], [20.0, 900.0, 75.0]]
KAPPA = 0.41

M = {
    "tke": ("tke", None),
    "us": ("us", None),
    "us.09": ("us", 0.09),
    "us0.3": ("us", 0.3),
    "seti": ("dict", {FV.TI: 0.077}),
    "setir": ("dict", {FV.TI: 0.055, FV.RHO: 1.15}),
    "setws": ("dict", {FV.WS: 9.25}),
    "setwsti": ("dict", {FV.WS: 7.75, FV.TI: 0.093}),
    "setke": ("dict", {FV.TKE: 0.7, FV.USTAR: 0.31}),
    "setzero": ("dict", {FV.TKE: 0.0}),
    "setmol": ("dict", {"MOL": -333.0}),
    "dfti": ("df", {FV.TI: [0.04, 0.05, 0.14, 0.07]}),
    "dfmany": ("df", {FV.TKE: [0.5, 0.2, 0.3, 0.8], FV.RHO: [1.0, 1.1, 1.3, 1.24]}),
    "dfws": ("df", {FV.WS: [7.0, 11.0, 9.0, 8.5], FV.WD: [265.0, 100.0, 12.0, 170.0]}),
    "dfmol": ("df", {"MOL": [-100.0, 200.0, 0.5, 1e4]}),
    "fileti": ("file", {FV.TI: [0.09, 0.03, 0.11, 0.05], FV.USTAR: [0.2, 0.25, 0.5, 0.6]}),
}
WSM = ("setws", "setwsti", "dfws")
FIRST = {k for k in WSM}


def seqs(n, extra=()):
    names = list(M) + list(extra)
    for r in range(1, n + 1):
        for s in itertools.product(names, repeat=r):
            if any(m in FIRST for m in s[1:]):
                continue
            yield s


FORMS = ("plus", "list", "plusplus", "ext", "extlist", "append", "pdlist")
ENGS = [("single", {}), ("numpy", dict(chunk_size_states=2, chunk_size_points=2)), ("numpy", dict(chunk_size_states=1, chunk_size_points=3)), ("threads", dict(n_procs=2, chunk_size_states=3, chunk_size_points=2))]


def cases(tier):
    S = [s for i, s in enumerate(seqs(3)) if len(s) < 3 or i % (1 if tier == "thorough" else 5) == 0]
    out = []
    for i in range(0, len(S), 25):
        out.append(dict(kind="states", seqs=S[i:i + 25], k=i // 25))
        out.append(dict(kind="points", seqs=S[i:i + 25], k=i // 25))
    D = [s for s in seqs(2, ("d", "dn", "dd")) if "d" in s or "dn" in s or "dd" in s]
    for i in range(0, len(D), 12):
        out.append(dict(kind="points", seqs=D[i:i + 12], k=i // 12))
    out += [dict(kind="deltas", twakes=t, st=s) for t in (False, True) for s in ("table", "timeseries", "prof")]
    out += [dict(kind="height", st=s) for s in ("shear", "abl")]
    out += [dict(kind="names")]
    return out


def table(cols=None, kind="table"):
    d = copy.deepcopy(ROWS)
    extra = {}
    for v, x in (cols or {}).items():
        c = COL.get(v, v)
        d[c] = list(np.broadcast_to(x, 4))
        if v not in COL:
            extra[v] = c
    if kind == "timeseries":
        d.pop("w")
        df = pd.DataFrame(d, index=pd.date_range("2021-03-01", periods=4, freq="30min"))
        df.index.name = "Time"
    else:
        df = pd.DataFrame(d, index=pd.RangeIndex(4))
        df.index.name = "state"
    cls = fst.Timeseries if kind == "timeseries" else fst.StatesTable
    vc = dict(COL, **extra)
    if kind != "timeseries":
        vc[FV.WEIGHT] = "w"
    return cls(df, output_vars=list(COL) + list(extra), var2col=vc)


_N = [0]


def model(name):
    if name == "d":
        return WakeDeltas([FV.WS])
    if name == "dn":
        return WakeDeltas([FV.WS, FV.RHO], normalize=True)
    if name == "dd":
        return WakeDeltas([FV.WS, FV.WD, FV.RHO])
    k, p = M[name]
    if k == "tke":
        return TKE2TI()
    if k == "us":
        return Ustar2TI(**({} if p is None else dict(max_ti=p)))
    ov = list(p)
    if k == "dict":
        return SetUniformData(dict(p), ov)
    ren = len(name) % 2 == 0
    v2c = {v: "c_" + v for v in ov} if ren else {}
    df = pd.DataFrame({"other": [9.0, 8.0, 7.0, 6.0], **{v2c.get(v, v): x for v, x in reversed(list(p.items()))}})
    kw = dict(var2col=v2c) if ren else {}
    if k == "df":
        return SetUniformData(df, ov, **kw)
    _N[0] += 1
    fn = os.path.join(W.tmpdir(), f"u{_N[0]}.csv")
    df.to_csv(fn)
    return SetUniformData(fn, ov, **kw)


def apply(seq, D):
    """the reference: D maps variables to arrays (state, ...)"""
    D = dict(D)
    for name in seq:
        if name in ("d", "dn", "dd"):
            for v in dict(d=[FV.WS], dn=[FV.WS, FV.RHO], dd=[FV.WS, FV.WD, FV.RHO])[name]:
                D["DELTA_" + v] = D[v] - D["AMB_" + v]
                if name == "dn":
                    D["DELTA_" + v] = D["DELTA_" + v] / D["AMB_" + v]
            continue
        k, p = M[name]
        if k == "tke":
            D[FV.TI] = np.sqrt(3 * D[FV.TKE] / 2) / D[FV.WS]
        elif k == "us":
            t = D[FV.USTAR] / KAPPA / D[FV.WS]
            D[FV.TI] = t if p is None else np.where(t > p, p, t)
        else:
            for v, x in p.items():
                x = np.asarray(x, float)
                sh = np.asarray(D[FV.WS]).shape
                D[v] = np.array(np.broadcast_to(x.reshape((-1,) + (1,) * (len(sh) - 1)) if x.ndim else x, sh), float)
    return D


def ovars(seq):
    return {"d": ["DELTA_WS"], "dn": ["DELTA_WS", "DELTA_RHO"], "dd": ["DELTA_WS", "DELTA_WD", "DELTA_RHO"]}.get(seq) or ([FV.TI] if M[seq][0] in ("tke", "us") else list(M[seq][1]))


def attach(st, ms, form):
    if form == "plus":
        for m in ms:
            st = st + m
        return st
    if form == "list":
        return st + list(ms)
    if form == "plusplus":
        a = st + ms[0]
        return a + (st + list(ms[1:])) if len(ms) > 1 else a
    if form == "ext":
        return ExtendedStates(st, list(ms))
    if form == "extlist":
        return ExtendedStates(st, [ms[0]]) + list(ms[1:]) if len(ms) > 1 else ExtendedStates(st, point_models=list(ms))
    if form == "append":
        e = ExtendedStates(st)
        for m in ms:
            e.append(m)
        return e
    pl = ms[0] + list(ms[1:]) if len(ms) > 1 else PointDataModelList(models=list(ms))
    return st + pl


WK = dict(wakes=["Bastankhah2014_linear_k004", "IECTI2019_max"], models=["TA", "kTI_02"])


def run_states(ctx, seqs, k):
    for i, seq in enumerate(seqs):
        seq = tuple(seq)
        form = FORMS[(i + k) % len(FORMS)] if ctx.tier == "quick" else None
        kind = ("table", "timeseries")[(i + k) % 2]
        cols = apply(seq, {v: np.array(ROWS[c], float) for v, c in COL.items()})
        ref_st = table(cols, kind)
        rf, rp = W.run_both(w(states=ref_st, **WK), PTS, eng=ENGS[0])
        a, ap = W.obs(rf), W.obs(rp)
        for form in ([form] if form else FORMS):
            for j, e in enumerate(ENGS):
                if ctx.tier == "quick" and (i + k) % len(ENGS) != j:
                    continue
                st0 = table(None, kind)
                ms = [model(m) for m in seq]
                st = attach(st0, ms, form)
                ctx.evals += 1
                ctx.trans += len(seq)
                ctx.state((seq, form, kind))
                ctx.nt("states:" + form)
                try:
                    f, p = W.run_both(w(states=st, **WK), PTS, eng=e)
                except Exception as er:
                    ctx.fail("states:error", f"{type(er).__name__}: {er}", seq=seq, form=form, eng=e)
                    continue
                b, bp = W.obs(f), W.obs(p)
                bad = W.diff(a, b, rtol=1e-9, bcast=True, skip=("order_ssel",)) or W.diff(ap, bp, rtol=1e-9, bcast=True)
                if bad:
                    ctx.fail("states", str(bad)[:250], seq=seq, form=form, eng=e)


def pick(ds, v):
    x = ds[v].to_numpy()
    return x


def run_points(ctx, seqs, k):
    """models of point calculations, with and without wakes"""
    base = w(states=table(), wakes=["Bastankhah2014_linear_k004"], models=["TA", "kTI_02"])
    with W.engine("single"):
        algo = W.build(base)
        fr = algo.calc_farm()
        plain = algo.calc_points(fr, np.array(PTS))
    fr0 = W.obs(fr)
    for i, seq in enumerate(seqs):
        seq = tuple(seq)
        amb_only = not any(m in ("d", "dn", "dd") for m in seq)
        A = {v: plain["AMB_" + v if "AMB_" + v in plain else v].to_numpy() for v in COL}
        A1 = apply([m for m in seq if m not in ("d", "dn", "dd")], A)
        E = dict(A1)
        wset = seq[0] in FIRST
        wk = {v: plain[v].to_numpy() for v in COL}
        D = dict(wk)
        for v in (FV.WS, FV.WD, FV.TI, FV.RHO):
            D["AMB_" + v] = A1[v]
        # what the wakes do to modified inflow is not of interest here, the models overwrite it
        for v in (FV.WD, FV.RHO, FV.TI, FV.TKE, FV.USTAR):
            D[v] = A1[v]
        D = apply(seq, D)
        both = [False, True] if amb_only else [False]
        for amb, style in itertools.product(both, ("list", "single", "pdl")):
            if style == "single" and len(seq) > 1:
                continue
            if ctx.tier == "quick" and style == "pdl" and i % 3:
                continue
            e = ENGS[(i + k + len(style)) % len(ENGS)]
            if ctx.tier == "quick" and (i // 2) % 3:
                e = ENGS[0]
            al = algo
            ms = [model(m) for m in seq]
            pm = ms[0] if style == "single" else (ms if style == "list" else PointDataModelList(models=ms))
            ctx.evals += 1
            ctx.trans += len(seq)
            ctx.state((seq, amb, style))
            ctx.nt("points:" + ("amb" if amb else "wake"))
            try:
                with W.engine(e[0], **e[1]):
                    res = al.calc_points(fr, np.array(PTS), point_models=pm, ambient=amb)
            except Exception as er:
                ctx.fail("points:error", f"{type(er).__name__}: {er}", seq=seq, ambient=amb, eng=e)
                continue
            want = {}
            for v in (FV.WS, FV.WD, FV.TI, FV.RHO):
                want["AMB_" + v] = A1[v]
            for q in seq:
                for v in ovars(q):
                    if not (amb and v in FV.var2amb):
                        want[v] = (A1 if amb else D)[v]
            if not amb and not wset:
                want[FV.WS] = wk[FV.WS]
            for v, x in want.items():
                if v not in res:
                    ctx.fail("points:missing", f"variable {v} missing", seq=seq, ambient=amb)
                    continue
                y = res[v].to_numpy()
                if y.shape != x.shape or not np.allclose(y, x, rtol=1e-9, atol=1e-12, equal_nan=True):
                    ctx.fail("points", f"{v}: {y.ravel()[:6]} instead of {x.ravel()[:6]}", seq=seq, ambient=amb, eng=e, style=style)
            if amb and set(res.data_vars) & set(FV.var2amb):
                ctx.fail("points:ambient", f"waked variables in ambient results: {list(res.data_vars)}", seq=seq)
            if list(res.coords[FC.STATE].to_numpy()) != [0, 1, 2, 3]:
                ctx.fail("points:index", "state labels changed", seq=seq)
    bad = W.diff(fr0, W.obs(fr))
    if bad:
        ctx.fail("points:farm", f"farm results changed: {bad}")
    with W.engine("single"):
        again = algo.calc_points(fr, np.array(PTS))
    bad = W.diff(W.obs(plain), W.obs(again))
    if bad:
        ctx.fail("points:later", f"a later calculation without the models differs: {bad}"[:250])


def run_deltas(ctx, twakes, st):
    """wake deltas are the differences of the waked and the ambient results"""

    def mk():
        if st == "prof":
            s = dict(kind="table", ws=ROWS["ws"], wd=ROWS["wd"], ti=ROWS["ti"], rho=ROWS["rho"], w=ROWS["w"], profiles={"WS": {"type": "ShearedProfile"}}, fixed={"H": 100.0, "shear": 0.2})
        else:
            s = table(None, st)
        return w(states=s, wakes=["Bastankhah2014_linear_k004"] + (["IECTI2019_max"] if twakes else []), models=["TA", "kTI_02"])

    for e in ENGS:
        n = 0
        spec = mk()
        algo = W.build(spec)
        with W.engine(e[0], **e[1]):
            fr = algo.calc_farm()
            plain = algo.calc_points(fr, np.array(PTS))
            for r in (1, 2, 3, 4):
                for vs in itertools.combinations((FV.WS, FV.TI, FV.RHO, FV.WD), r):
                    for norm, isel in itertools.product((False, True), (None, [1, 3], [2])):
                        n += 1
                        if ctx.tier == "quick" and n % 2 != ENGS.index(e) % 2:
                            continue
                        ctx.evals += 1
                        m = WakeDeltas(list(vs), normalize=norm)
                        res = algo.calc_points(fr, np.array(PTS), point_models=[m], **({} if isel is None else dict(states_isel=isel)))
                        pl = plain if isel is None else plain.isel({FC.STATE: isel})
                        for v in vs:
                            x = pl[v].to_numpy() - pl["AMB_" + v].to_numpy()
                            x = x / pl["AMB_" + v].to_numpy() if norm else x
                            y = res["DELTA_" + v].to_numpy()
                            if y.shape != x.shape or not np.allclose(x, y, rtol=1e-9, atol=1e-12):
                                ctx.fail("deltas", f"DELTA_{v}: {y.ravel()[:5]} instead of {x.ravel()[:5]}", vars=vs, norm=norm, isel=isel, eng=e)
                        bad = W.diff(W.obs(pl), {k: q for k, q in W.obs(res).items() if not k.startswith("DELTA_")})
                        if bad:
                            ctx.fail("deltas:other", f"{bad}"[:200], vars=vs)
                        ctx.nt("deltas")
                        ctx.state((vs, norm, str(isel), e[0], st, twakes))
            # the result can be restricted to the deltas
            res = algo.calc_points(fr, np.array(PTS), point_models=[WakeDeltas([FV.WS])], outputs=["DELTA_WS"])
            if list(res.data_vars) != ["DELTA_WS"] or not np.allclose(res["DELTA_WS"].to_numpy(), (plain[FV.WS] - plain[FV.AMB_WS]).to_numpy()):
                ctx.fail("deltas:outputs", f"{list(res.data_vars)}")


def run_height(ctx, st):
    """models see the wind speed at the height of each point"""
    prof = dict(shear={"WS": {"type": "ShearedProfile"}}, abl={"WS": {"type": "ABLLogWsProfile"}})[st]
    fixed = dict(shear={"H": 100.0, "shear": 0.2, FV.TKE: 0.6, FV.USTAR: 0.4}, abl={"H": 100.0, "z0": 0.05, "MOL": -300.0, FV.TKE: 0.6, FV.USTAR: 0.4})[st]

    def mk():
        df = pd.DataFrame({c: ROWS[c] for c in ("ws", "wd", "rho", "ti", "w")})
        return fst.StatesTable(df, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO, FV.TKE, FV.USTAR], var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho", FV.WEIGHT: "w"}, fixed_vars=dict(fixed), profiles=copy.deepcopy(prof))
    for j, (form, e, (mn, mm)) in enumerate(itertools.product(FORMS, ENGS, (("tke", lambda: TKE2TI()), ("us", lambda: Ustar2TI()), ("usmax", lambda: Ustar2TI(max_ti=0.11))))):
        if ctx.tier == "quick" and j % 4 != (0 if st == "abl" else 2):
            continue
        s = attach(mk(), [mm()], form)
        f, p = W.run_both(w(states=s, wakes=["Bastankhah2014_linear_k004"], models=["TA", "kTI_02"], rotor_model="level4"), PTS, eng=e)
        ctx.evals += 1
        ctx.nt("height:" + mn)
        ctx.state((st, form, e[0], mn))
        ws = p[FV.AMB_WS].to_numpy()
        x = np.sqrt(1.5 * 0.6) / ws if mn == "tke" else 0.4 / KAPPA / ws
        if mn == "usmax":
            x = np.where(x > 0.11, 0.11, x)
        y = p[FV.AMB_TI].to_numpy()
        if not np.allclose(x, y, rtol=1e-9):
            ctx.fail("height", f"AMB_TI {y[0]} instead of {x[0]} at wind speeds {ws[0]}", form=form, model=mn, eng=e)
        if np.ptp(ws[0]) < 0.1:
            ctx.fail("height:world", "the world has no profile")


def run_names(ctx):
    """names of the model book, mixed with objects; nothing is kept between calculations"""
    for pair in itertools.product(("tke2ti", "ustar2ti", "objt", "objd"), repeat=2):
        with W.engine("single"):
            algo = W.build(w(states=table(), wakes=["Bastankhah2014_linear_k004"], models=["TA", "kTI_02"]))
            fr = algo.calc_farm()
            plain = algo.calc_points(fr, np.array(PTS))
            for rep in range(2):
                ms = [dict(objt=TKE2TI(), objd=WakeDeltas([FV.WS])).get(q, q) for q in pair]
                res = algo.calc_points(fr, np.array(PTS), point_models=ms if rep else (ms[0] if pair[0] == pair[1] else ms))
                ctx.evals += 1
                ctx.nt("names")
                ctx.state((pair, rep))
                ti = plain[FV.TI].to_numpy()
                for q in pair:
                    if q in ("tke2ti", "objt"):
                        ti = np.sqrt(1.5 * plain[FV.TKE].to_numpy()) / plain[FV.WS].to_numpy()
                    if q == "ustar2ti":
                        ti = plain[FV.USTAR].to_numpy() / KAPPA / plain[FV.WS].to_numpy()
                if not np.allclose(res[FV.TI].to_numpy(), ti):
                    ctx.fail("names", f"TI {res[FV.TI].to_numpy()[0]} instead of {ti[0]}", pair=pair)
                if "objd" in pair and not np.allclose(res["DELTA_WS"].to_numpy(), (plain[FV.WS] - plain[FV.AMB_WS]).to_numpy()):
                    ctx.fail("names:delta", "wrong delta", pair=pair)
    for bad in ("nope", "tke2ti_", 3, object()):
        ctx.evals += 1
        with W.engine("single"):
            algo = W.build(w(states=table(), wakes=["Bastankhah2014_linear_k004"], models=["TA", "kTI_02"]))
            fr = algo.calc_farm()
            try:
                algo.calc_points(fr, np.array(PTS), point_models=bad)
            except Exception:
                continue
            ctx.fail("names:unknown", f"point model {bad!r} accepted")


def run(case, ctx):
    k = {a: b for a, b in case.items() if a != "kind"}
    globals()["run_" + case["kind"]](ctx, **k)
