"""P25 the same states give the same results in whatever form they are given"""
import itertools, os, shutil, tempfile
import numpy as np
import pandas as pd
import xarray as xr
import foxes.variables as FV
import foxes.constants as FC
from foxes.config import config
from foxes.input import states as fst
from foxes.core import States
from mc import worlds as W
from mc.catalog import w

ID = "P25"
LEVEL = "model_checking"
ASSUMPTIONS = ["2 turbines, at most 7 states; tables as data frame, csv and compressed csv files; all subsets of fixed variables; selections by position and by label; scans over up to 4 variables; tab files up to 4 sectors and 4 bins",
               "reference: the numbers written into the table, and the run with the plain data frame of exactly the selected rows; rtol 1e-9"]
XY = [[0.0, 0.0], [420.0, 30.0]]
OV = [FV.WS, FV.WD, FV.TI, FV.RHO]
DATA = dict(WS=[6.5, 8.0, 9.25, 10.5, 11.0, 7.75], WD=[262.0, 270.0, 281.5, 266.0, 90.5, 359.0], TI=[0.05, 0.08, 0.11, 0.06, 0.09, 0.07], RHO=[1.15, 1.2, 1.225, 1.25, 1.18, 1.21])
WT = [0.05, 0.3, 0.1, 0.25, 0.2, 0.1]
CONST = dict(WS=9.5, WD=268.0, TI=0.077, RHO=1.19)
N = 6
SUBS = [tuple(v for k, v in enumerate(DATA) if (m >> k) & 1) for m in range(16)]
SRC = ("frame", "csv", "csv.gz", "csv.bz2", "csv.zip", "csv;", "relative", "str")
SEL = {"none": (None, None, list(range(N))), "list": ([4, 1, 2], None, [4, 1, 2]), "array": (np.array([0, 5]), None, [0, 5]), "slice": (slice(1, 5), None, [1, 2, 3, 4]), "one": ([3], None, [3]),
       "loc": (None, [5, 0, 3], [5, 0, 3]), "locslice": (None, slice(2, 4), [2, 3, 4]), "mask": (np.array([True, False, True, True, False, True]), None, [0, 2, 3, 5])}
INDEX = {"range": list(range(N)), "labels": [30, 10, 7, 22, 5, 41], "time": None}


def cases(tier):
    out = []
    for cls, src, fx in itertools.product(("StatesTable", "Timeseries"), SRC, SUBS):
        if tier == "quick" and src in ("csv.gz", "csv.bz2", "csv.zip", "str", "csv;") and fx not in ((), ("TI",), ("WS", "WD")):
            continue
        out.append(dict(kind="table", cls=cls, src=src, fixed=list(fx)))
    for k in range(1, 5):
        for vs in itertools.permutations(OV, k):
            if FV.WS in vs and FV.WD in vs or k == 1 and tier != "quick" or k == 3:
                out.append(dict(kind="scan", vars=list(vs)))
    out += [dict(kind="tab", ns=a, nb=b, src=s, norm=n, f=f) for a in (1, 2, 3, 4) for b in (1, 2, 4) for s in ("file", "path", "dataset", "relative") for n in (True, False) for f in (1.0, 1.1)]
    out += [dict(kind="single", vars=list(v)) for v in SUBS if FV.WS in v and FV.WD in v]
    out += [dict(kind="reset", first=a, second=b, src=s) for a in SEL for b in SEL for s in ("frame", "csv")]
    out += [dict(kind="reuse", src=s, order=o) for s in SRC for o in ("twice", "switch")]
    return out


def index(name):
    if name == "time":
        return pd.date_range("2021-03-01 00:10:00", periods=N, freq="37min")
    return pd.Index(INDEX[name])


def frame(idx="range", names=None, cols=None, weight=None, extra=False):
    d = dict(DATA)
    if weight:
        d[weight] = WT
    if extra:
        d = {"junk": [9.9] * N, **d, "text": list("abcdef")}
    df = pd.DataFrame(d, index=index(idx))
    df = df.rename(columns=names or {})
    if cols:
        df = df[[c for c in reversed(df.columns)]] if cols == "rev" else df
    df.index.name = "Time" if idx == "time" else "state"
    return df


def world(states):
    return w(xy=XY, models=["TA"], states=states, wakes=["Bastankhah2014_linear_k004"])


_B = {}


def base(rows, const, weights, idx):
    """run with a plain frame of exactly these rows"""
    k = (tuple(rows), tuple(const), weights, idx)
    if k not in _B:
        df = frame("range", weight=FV.WEIGHT if weights else None).iloc[list(rows)].copy()
        for v in const:
            df[v] = CONST[v]
        df.index = index(idx)[list(rows)]
        _B[k] = W.obs(W.run_farm(world(fst.StatesTable(df, output_vars=OV))))
    return _B[k]


def check(ctx, key, name, r, rows, const, weights, idx):
    a = W.obs(r)
    want = {v: (np.full(len(rows), CONST[v]) if v in const else np.array(DATA[v])[rows]) for v in DATA}
    for v, x in want.items():
        d = r["AMB_" + v if v != FV.WS else FV.AMB_WS if hasattr(FV, "AMB_WS") else "AMB_REWS"] if ("AMB_" + v) in r else r["AMB_REWS"]
        e = np.broadcast_to(x[:, None], d.shape)
        ctx.trans += e.size
        if d.shape != (len(rows), 2) or not np.allclose(d, e, rtol=1e-9, atol=1e-9):
            ctx.fail("values|" + key, f"{name}: ambient {v} = {d.to_numpy()[:, 0].tolist()}, given {x.tolist()}")
            return
    wt = np.array(WT)[rows] if weights else np.full(len(rows), 1.0 / len(rows))
    wr = r[FV.WEIGHT].to_numpy()
    if not np.allclose(wr if wr.ndim == 1 else wr[:, 0], wt, rtol=1e-12):
        ctx.fail("weights|" + key, f"{name}: weights {wr.tolist()}, expected {wt.tolist()}")
        return
    if list(r[FC.STATE].to_numpy()) != list(index(idx)[list(rows)].to_numpy()):
        ctx.fail("index|" + key, f"{name}: state index {r[FC.STATE].to_numpy()}, expected {index(idx)[list(rows)].to_numpy()}")
    d = W.diff(a, base(rows, const, weights, idx))
    if d:
        ctx.fail("results|" + key, f"{name}: {d[1]}")


def write(src, df, tmp, n=[0]):
    n[0] += 1
    ext = dict([("csv;", "csv"), ("relative", "csv"), ("str", "csv")]).get(src, src)
    f = os.path.join(tmp, f"s{n[0]}.{ext}")
    df.to_csv(f, sep=";" if src == "csv;" else ",")
    return f


def source(src, df, tmp):
    """-> data source, reading parameters"""
    from pathlib import Path
    if src == "frame":
        return df, {}
    f = write(src, df, tmp)
    if src == "csv;":
        return Path(f), dict(pd_read_pars=dict(sep=";"))
    if src == "relative":
        return os.path.basename(f), {}
    return (f if src == "str" else Path(f)), {}


def run(case, ctx):
    tmp = tempfile.mkdtemp(dir=W.tmpdir())
    old = dict(config)
    config[FC.INPUT_DIR] = tmp
    try:
        globals()["k_" + case["kind"]](case, ctx, tmp)
    finally:
        config.update(old)
        shutil.rmtree(tmp)


def k_table(case, ctx, tmp):
    cls, src, fx = case["cls"], case["src"], case["fixed"]
    idxs = ("time",) if cls == "Timeseries" else ("range", "labels")
    for idx, sel, wt, nm, ex in itertools.product(idxs, SEL, (None, "same", "renamed"), ("same", "renamed", "dropped"), (False, True)):
        ss, sl, rows = SEL[sel]
        if ctx.tier == "quick" and (sel not in ("none", "list") and (nm != "renamed" or ex) or (wt == "same" and nm == "dropped") or (ex and nm == "dropped") or (fx and wt == "same" and ex)):
            continue
        if sl is not None:
            sl = slice(index(idx)[rows[0]], index(idx)[rows[-1]]) if isinstance(sl, slice) else list(index(idx)[rows])
        names = {v: f"col {v}" for v in DATA} if nm == "renamed" else {}
        df = frame(idx, names, "rev" if ex else None, {None: None, "same": FV.WEIGHT, "renamed": "prob"}[wt], ex)
        if nm == "dropped":
            df = df.drop(columns=[c for c in fx])
        v2c = {v: c for v, c in names.items() if v not in fx}
        if wt == "renamed":
            v2c[FV.WEIGHT] = "prob"
        df0 = df.copy(deep=True)
        ds, kw = source(src, df, tmp)
        args = dict(output_vars=list(OV), var2col=v2c, fixed_vars={v: CONST[v] for v in fx}, states_sel=ss, states_loc=sl, **kw)
        name = f"{case}, index {idx}, selection {sel}, weights {wt}, columns {nm}, extra columns {ex}"
        key = f"{cls}|{src}|{sel}"
        ctx.evals += 1
        try:
            st = getattr(fst, cls)(ds, **args)
            r = W.run_farm(world(st))
        except Exception as e:
            ctx.fail("crash|" + key, f"{name}: {type(e).__name__}: {e}")
            continue
        check(ctx, key, name, r, rows, fx, wt is not None, idx)
        if not df.equals(df0):
            ctx.fail("mutated|" + key, f"{name}: the given data frame was changed")
        if st.size() not in (None, len(rows)):
            ctx.fail("size|" + key, f"{name}: size {st.size()}")
        ctx.state(name)
        ctx.nt(name)


VALS = dict(WS=[9.5, 7.0], WD=[270.0, 262.0, 275.5], TI=[0.06, 0.1], RHO=[1.1, 1.225])


def k_scan(case, ctx, tmp):
    vs = case["vars"]
    for lens in itertools.product(*[range(1, len(VALS[v]) + 1) for v in vs]):
        if np.prod(lens) > 8 and ctx.tier == "quick" or lens.count(1) > 2 and len(vs) == 4 and ctx.tier == "quick":
            continue
        miss = [v for v in OV if v not in vs]
        sc = {v: VALS[v][:n] for v, n in zip(vs, lens)}
        sc0 = {k: list(q) for k, q in sc.items()}
        full = dict(sc, **{v: [CONST[v]] for v in miss})
        rows = list(itertools.product(*full.values()))
        df = pd.DataFrame(rows, columns=list(full))
        ctx.evals += 1
        name = f"scan over {full}"
        a = W.run_farm(world(fst.ScanStates(full)))
        b = W.run_farm(world(fst.StatesTable(df, output_vars=OV)))
        d = W.diff(W.obs(a), W.obs(b))
        if d:
            ctx.fail("scan", f"{name}: {d[1]}")
        for k, v in enumerate(full):
            x = a["AMB_" + v if ("AMB_" + v) in a else "AMB_REWS"].to_numpy()[:, 0]
            ctx.trans += len(x)
            if len(x) != len(rows) or not np.allclose(x, [q[k] for q in rows]):
                ctx.fail("scan:values", f"{name}: {v} = {x.tolist()}, expected {[q[k] for q in rows]}")
        if {k: list(q) for k, q in sc.items()} != sc0:
            ctx.fail("scan:mutated", name)
        ctx.state(name)
        ctx.nt(name)


def k_tab(case, ctx, tmp):
    ns, nb, src, norm, f = case["ns"], case["nb"], case["src"], case["norm"], case["f"]
    rng = np.random.RandomState(7)
    for zero, sc, tabs in itertools.product((False, True), ((1.0, 1.0), (0.98, 1.03)), (False, True)):
        if zero and (nb < 2):
            continue
        wsf = rng.uniform(1, 9, (nb, ns))
        if zero:
            wsf[0, -1] = 0.0
        wdf = rng.uniform(1, 9, ns)
        wsf *= 1000 / wsf.sum(axis=0)[None, :] * sc[0]
        wdf *= 100 / wdf.sum() * sc[1]
        ws = 4.0 + 3.0 * np.arange(nb)
        wd = np.arange(ns) * 360.0 / ns
        if src == "dataset":
            if norm:
                continue
            s = xr.Dataset(coords={"ws": ws, "wd": wd}, data_vars={"wd_freq": (("wd",), wdf), "ws_freq": (("ws", "wd"), wsf)}, attrs=dict(description="x", latitude=1.0, longitude=2.0, height=90.0, factor_ws=f, shift_wd=0.0))
            s0 = s.copy(deep=True)
        else:
            t = "\t" if tabs else " "
            lines = ["a site with numbers 12 13", t.join(["8.1", "53.2", "90.0"]), t.join([str(ns), str(f), "0.0"]), t.join("%.10f" % q for q in wdf)]
            lines += [t.join(["%.1f" % ws[i]] + ["%.10f" % q for q in wsf[i]]) for i in range(nb)]
            p = os.path.join(tmp, "x.tab")
            open(p, "w").write("\n".join(lines) + "\n")
            from pathlib import Path
            s = {"file": p, "path": Path(p), "relative": "x.tab"}[src]
        a, b = (wsf, wdf)
        if norm and src != "dataset":
            a, b = wsf * 1000 / wsf.sum(axis=0)[None, :], wdf * 100 / wdf.sum()
        lo = np.append([0.0], ws[:-1])
        rows = [(f * 0.5 * (lo[i] + ws[i]), wd[j], a[i, j] / 1000 * b[j] / 100) for i in range(nb) for j in range(ns) if a[i, j] * b[j] > 0]
        df = pd.DataFrame(rows, columns=[FV.WS, FV.WD, FV.WEIGHT])
        ctx.evals += 1
        name = f"{case}, zero entry {zero}, scaled {sc}, tabs {tabs}"
        kw = dict(output_vars=OV, fixed_vars={FV.TI: 0.07, FV.RHO: 1.2})
        try:
            r = W.run_farm(world(fst.TabStates(s, normalize=norm, **kw)))
        except Exception as e:
            ctx.fail(f"tab:crash|{src}", f"{name}: {type(e).__name__}: {e}")
            continue
        e = W.run_farm(world(fst.StatesTable(df, **kw)))
        d = W.diff(W.obs(r), W.obs(e), rtol=1e-7)
        if d:
            ctx.fail(f"tab|{src}", f"{name}: {d[1]}")
        wsum = float(r[FV.WEIGHT].to_numpy().sum())
        ctx.trans += len(rows)
        if norm and src != "dataset" and not np.isclose(wsum, 1.0):
            ctx.fail("tab:normalized", f"{name}: weights sum up to {wsum}")
        if src == "dataset" and not s.identical(s0):
            ctx.fail("tab:mutated", name)
        ctx.state(name)
        ctx.nt(name)


def k_single(case, ctx, tmp):
    vs = case["vars"]
    for i in range(N):
        kw = {v.lower(): DATA[v][i] for v in vs}
        full = {v: (DATA[v][i] if v in vs else CONST[v]) for v in OV}
        ctx.evals += 1
        for how in ("class", "new"):
            k2 = dict({v.lower(): CONST[v] for v in OV if v not in vs}, **kw)
            st = fst.SingleStateStates(**k2) if how == "class" else States.new("SingleStateStates", **k2)
            r = W.run_farm(world(st))
            e = W.run_farm(world(fst.StatesTable(pd.DataFrame({v: [q] for v, q in full.items()}), output_vars=OV)))
            d = W.diff(W.obs(r), W.obs(e))
            ctx.trans += 1
            if d:
                ctx.fail("single", f"single state {k2}: {d[1]}")
        ctx.state((str(vs), i))
        ctx.nt((str(vs), i))


def k_reset(case, ctx, tmp):
    """reset is the same as new states with the selection, also after runs"""
    df = frame("range", weight="prob")
    ds, kw = source(case["src"], df, tmp)
    v2c = {FV.WEIGHT: "prob"}
    a, b = SEL[case["first"]], SEL[case["second"]]
    st = fst.StatesTable(ds, output_vars=OV, var2col=v2c, states_sel=a[0], states_loc=a[1], **kw)
    name = f"{case}"
    ctx.evals += 3
    for q in (a, b):
        base(q[2], (), True, "range")
    with W.engine("single"):
        algo = W.build(world(st))
        check(ctx, "reset1", name + " first", algo.calc_farm(), a[2], (), True, "range")
        st.reset(algo, states_sel=b[0], states_loc=b[1])
        algo = W.build(world(st))
        check(ctx, "reset2", name + " after reset", algo.calc_farm(), b[2], (), True, "range")
        if st.initialized:
            algo.finalize()
        if not st.initialized:
            st.reset(states_sel=a[0], states_loc=a[1])
            algo = W.build(world(st))
            check(ctx, "reset3", name + " after reset back", algo.calc_farm(), a[2], (), True, "range")
    ctx.state(name)
    ctx.nt(name)


def k_reuse(case, ctx, tmp):
    """the same states object in several algorithms"""
    df = frame("labels")
    ds, kw = source(case["src"], df, tmp)
    st = fst.StatesTable(ds, output_vars=OV, **kw)
    st2 = fst.StatesTable(frame("range"), output_vars=OV, states_sel=[1, 2])
    seq = [st, st] if case["order"] == "twice" else [st, st2, st]
    for k, s in enumerate(seq):
        ctx.evals += 1
        rows, idx = ([1, 2], "range") if s is st2 else (list(range(N)), "labels")
        base(rows, (), False, idx)
        with W.engine("single"):
            algo = W.build(world(s))
            r = algo.calc_farm()
            check(ctx, f"reuse|{case['src']}", f"{case} run {k}", r, rows, (), False, idx)
            r = algo.calc_farm()
            check(ctx, f"reuse|{case['src']}", f"{case} run {k} again", r, rows, (), False, idx)
    ctx.state(str(case))
    ctx.nt(str(case))
