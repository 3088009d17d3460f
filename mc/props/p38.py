"""P38 layout inputs place exactly the stated turbines"""
import bz2, gzip, itertools, json, os, zipfile
from pathlib import Path
import numpy as np
import pandas as pd
import foxes.constants as FC
import foxes.variables as FV
from foxes.core import Turbine, WindFarm
from foxes.input import farm_layout as FL
from foxes.utils import geom2d
from foxes.config import config
from mc import worlds as W
from mc.catalog import w, ST4

ID = "P38"
LEVEL = "model_checking"
ASSUMPTIONS = ["layouts of up to 12 turbines; every option value of every layout input from a list, all combinations (columns: all subsets), all ordered pairs of inputs on one farm",
               "tables have integer row labels; file columns without missing values"]
TT = ["NREL5MW", "kTI_02"]
BASES = [(0.0, 0.0), (-120.5, 77.25), (4, 9), [410000.25, 6.1e6]]


def cases(tier):
    out = [dict(kind=k) for k in ("grid", "ring", "row", "random", "queries", "boundary", "turbine")]
    n = 16
    out += [dict(kind="table", part=p, of=n) for p in range(n)]
    out += [dict(kind="json"), dict(kind="files")]
    out += [dict(kind="history", first=i) for i in range(len(INPUTS))]
    out += [dict(kind="farm", what=i) for i in range(len(INPUTS))]
    return out


def snap(farm):
    return [(t.index, t.name, tuple(np.asarray(t.xy, float)), tuple(t.models), len(t.mstates_sel), all(m is None for m in t.mstates_sel), t.D, t.H) for t in farm.turbines]


def want(k, xy, models=(), index=None, name=None, D=None, H=None):
    """the turbine at position k of the farm"""
    i = k if index is None else index
    return (i, f"T{i}" if name is None else name, tuple(float(c) for c in xy), tuple(models), len(models), True, D, H)


def same(got, exp, tol=1e-9):
    if len(got) != len(exp):
        return f"{len(got)} turbines instead of {len(exp)}"
    for g, e in zip(got, exp):
        if not np.allclose(g[2], e[2], rtol=1e-12, atol=tol):
            return f"turbine {e[0]} at {g[2]} instead of {e[2]}"
        if g[:2] != e[:2] or g[3:6] != e[3:6]:
            return f"turbine {g} instead of {e}"
        for a, b in zip(g[6:], e[6:]):
            if (a is None) != (b is None) or (a is not None and float(a) != float(b)):
                return f"turbine {g} instead of {e}"
    return None


def judge(ctx, key, farm, exp, **data):
    ctx.evals += 1
    ctx.state((key, repr(exp)))
    bad = same(snap(farm), exp)
    if bad:
        ctx.fail(key, bad, **data)


EXTRA = [dict(), dict(turbine_models=TT), dict(turbine_models=TT, D=80.0, H=75.5), dict(turbine_models=("NREL5MW",), H=120)]


def ex(e):
    return dict(models=tuple(e.get("turbine_models", ())), D=e.get("D"), H=e.get("H"))


def names_opts(n):
    return [None, [f"wt_{i*i}" for i in range(n)]]


def inds_opts(n):
    return [None, [7 + 3 * i for i in range(n)]]


def quiet(ctx, key, fun, *a, **k):
    import io, contextlib
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fun(*a, verbosity=0, **k)
    if buf.getvalue():
        ctx.fail(key + ":verbosity", f"printed {buf.getvalue()[:80]!r} with verbosity=0")


def run_grid(ctx):
    steps = list(itertools.product(range(1, 5), range(1, 4))) + [[2, 3], np.array([3, 2])]
    vecs = [np.array([[500.0, 0.0], [0.0, 500.0]]), [[300, 40], [-25, 410]], np.array([[0.0, 700.0], [650.0, 0.0]])]
    for st, v, b, e in itertools.product(steps, vecs, BASES, EXTRA):
        n = int(st[0]) * int(st[1])
        for nm, ix in itertools.product(names_opts(n), inds_opts(n)):
            b0, v0 = np.array(b, float), np.array(v, float)
            f = WindFarm()
            bb = np.array(b) if b is BASES[2] else b
            quiet(ctx, "grid", FL.add_grid, f, bb, v, st, indices=ix, names=nm, **e)
            exp, k = [], 0
            for i in range(int(st[0])):
                for j in range(int(st[1])):
                    exp.append(want(k, b0 + i * v0[0] + j * v0[1], index=None if ix is None else ix[k], name=None if nm is None else nm[k], **ex(e)))
                    k += 1
            judge(ctx, "grid", f, exp, steps=str(st), vecs=str(v), base=str(b))
            if not (np.array_equal(np.array(bb, float), b0) and np.array_equal(np.array(v, float), v0)):
                ctx.fail("grid:arguments", f"arguments changed: {bb} {v}")
            ctx.nt("grid")


def run_ring(ctx):
    for n, d, off, b, e in itertools.product(range(1, 9), (100, 333.3), (0, 10, 22.5, -45, 350, 90.0, np.float64(12.25), np.int64(7)), BASES, EXTRA[:3]):
        for nm, ix in itertools.product(names_opts(n), inds_opts(n)):
            f = WindFarm()
            bb = np.array(b)
            b0 = bb.copy()
            quiet(ctx, "ring", FL.add_ring, f, bb, d, n, offset_deg=off, indices=ix, names=nm, **e)
            R, exp = n * d / (2 * np.pi), []
            for k in range(n):
                a = np.radians(float(off) + 360.0 * k / n)
                exp.append(want(k, np.array(b, float) + R * np.array([np.sin(a), np.cos(a)]), index=None if ix is None else ix[k], name=None if nm is None else nm[k], **ex(e)))
            judge(ctx, "ring", f, exp, n=n, off=str(off), base=str(b))
            if not np.array_equal(bb, b0):
                ctx.fail("ring:arguments", "base point changed")
            ctx.nt("ring")


def run_row(ctx):
    for n, s, b, e in itertools.product(range(1, 7), ((500.0, 0.0), [0, -400], np.array([12.5, 613.0])), BASES, EXTRA):
        for nm, ix in itertools.product(names_opts(n), inds_opts(n)):
            f = WindFarm()
            bb, ss = np.array(b), np.array(s)
            b0, s0 = bb.copy(), ss.copy()
            quiet(ctx, "row", FL.add_row, f, bb, ss, n, indices=ix, names=nm, **e)
            exp = [want(k, np.array(b, float) + k * np.array(s, float), index=None if ix is None else ix[k], name=None if nm is None else nm[k], **ex(e)) for k in range(n)]
            judge(ctx, "row", f, exp, n=n, step=str(s), base=str(b))
            if not (np.array_equal(bb, b0) and np.array_equal(ss, s0)):
                ctx.fail("row:arguments", "arguments changed")
            # later changes of the arguments must not reach the turbines
            bb += 1
            ss += 1
            judge(ctx, "row:alias", f, exp)
            ctx.nt("row")


def run_random(ctx):
    for n, md, c, seed, e in itertools.product((1, 2, 3, 5, 8, 12), (100.0, 500, 777.7), ([0, 0], (1000.0, -500.0), np.array([3.5, 2.25])), (0, 1, 42, None), EXTRA[:2]):
        np.random.seed(n)
        fs = []
        for r in range(2):
            f = WindFarm()
            quiet(ctx, "random", FL.add_random, f, n, md, centre=c, seed=seed, **e)
            fs.append(f)
        ctx.evals += 2
        xy = fs[0].xy_array
        judge(ctx, "random", fs[0], [want(k, xy[k], **ex(e)) for k in range(n)])
        if xy.shape != (n, 2):
            ctx.fail("random:count", f"{xy.shape} for n={n}")
            continue
        D = np.linalg.norm(xy[:, None] - xy[None], axis=-1)
        D[np.diag_indices(n)] = np.inf
        if D.min() < md * (1 - 1e-12):
            ctx.fail("random:distance", f"distance {D.min()} below {md}")
        if not np.allclose(xy.mean(axis=0), np.array(c, float), rtol=0, atol=1e-6):
            ctx.fail("random:centre", f"mean {xy.mean(axis=0)} instead of {c}")
        if seed is not None and not np.array_equal(xy, fs[1].xy_array):
            ctx.fail("random:seed", f"two layouts with seed {seed} differ")
        if seed is None and np.array_equal(xy, fs[1].xy_array) and n > 2:
            ctx.fail("random:noseed", "two unseeded layouts are equal")
        ctx.nt("random")
        ctx.state(("random", n, md, str(c), seed))


# ------------------------------------------------------------------ tables
N = 4
LABELS = [[0, 1, 2, 3], [3, 1, 0, 2], [10, 11, 15, 12]]


def table(labels):
    return pd.DataFrame(dict(x=[0.5, 700, 1400.25, -3.0], y=[10, -20.0, 35.5, 400.0], xx=[9.0, 8.0, 7.0, 6.0], yy=[1.0, 2.0, 4.0, 8.0],
                             hub=[90.0, 100.0, 80.5, 77.0], dia=[126.0, 80.0, 99.5, 101.0], id=[5, 2, 9, 4], label=["a", "b", "c", "d"],
                             m1=["kTI_02", "kTI_05", "kTI_02", "kTI_04"], m2=["hubh", "PMask", "hubh", "x1"], tt=["NREL5MW", "DTU10MW", "NREL5MW", "IWT7.5MW"], m3=["p1", "p2", "p3", "p4"], m4=["q1", "q2", "q3", "q4"]),
                        index=labels)


def table_options():
    pre = (None, ["m1"], ["m1", "m2"], ["m2", "m1"])
    post = (None, ["m3"], ["m4", "m3"])
    for nm, xy, hd, pr, tt, po, shift, ids, e in itertools.product((None, "label"), (None, ("xx", "yy")), (None, "hub", "dia", "both"), pre, (None, "tt"), post, (None, False, True), (None, "col", "list"), range(len(EXTRA))):
        if shift is not None and nm is not None:
            continue
        yield dict(nm=nm, xy=xy, hd=hd, pre=pr, tt=tt, post=po, shift=shift, ids=ids, e=e)


def table_call(o):
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in EXTRA[o["e"]].items()}
    if o["nm"]:
        kw["col_name"] = o["nm"]
    if o["xy"]:
        kw["col_x"], kw["col_y"] = o["xy"]
    if o["hd"] in ("hub", "both"):
        kw["col_H"] = "hub"
    if o["hd"] in ("dia", "both"):
        kw["col_D"] = "dia"
    if o["pre"]:
        kw["cols_models_pre"] = list(o["pre"])
    if o["tt"]:
        kw["col_turbine_type"] = o["tt"]
    if o["post"]:
        kw["cols_models_post"] = list(o["post"])
    if o["shift"] is not None:
        kw["turbine_base_name_count_shift"] = o["shift"]
        kw["turbine_base_name"] = "WT_"
    if o["ids"] == "col":
        kw["col_id"] = "id"
    if o["ids"] == "list":
        kw["turbine_ids"] = [30, 20, 50, 10]
    if "turbine_models" in kw:
        kw["turbine_models"] = list(kw["turbine_models"])
    return kw


def table_want(o, df, start=0):
    out, e = [], EXTRA[o["e"]]
    cx, cy = o["xy"] or ("x", "y")
    for k, lab in enumerate(df.index):
        r = df.iloc[k]
        models = [r[c] for c in (o["pre"] or [])] + ([r["tt"]] if o["tt"] else []) + list(e.get("turbine_models", [])) + [r[c] for c in (o["post"] or [])]
        name = r["label"] if o["nm"] else f"{'WT_' if o['shift'] is not None else 'T'}{lab + (1 if o['shift'] else 0)}"
        index = r["id"] if o["ids"] == "col" else ([30, 20, 50, 10][lab] if o["ids"] == "list" else None)
        H = r["hub"] if o["hd"] in ("hub", "both") else e.get("H")
        D = r["dia"] if o["hd"] in ("dia", "both") else e.get("D")
        out.append(want(start + k, (r[cx], r[cy]), models, index, name, D, H))
    return out


def run_table(ctx, part, of):
    d = W.tmpdir()
    for j, o in enumerate(table_options()):
        if j % of != part:
            continue
        if ctx.tier == "quick" and (j // of) % 3:
            continue
        for li, labs in enumerate(LABELS):
            if o["ids"] == "list" and max(labs) >= N:
                continue
            df = table(labs)
            df0 = df.copy(deep=True)
            kw = table_call(o)
            kw0 = repr(kw)
            f = WindFarm()
            quiet(ctx, "df", FL.add_from_df, f, df, **kw)
            exp = table_want(o, df)
            judge(ctx, "df", f, exp, options=o, labels=labs)
            if not df.equals(df0) or list(df.columns) != list(df0.columns) or repr(kw) != kw0:
                ctx.fail("df:arguments", f"arguments changed for {o}")
            f2 = WindFarm()
            quiet(ctx, "csvdf", FL.add_from_csv, f2, df, **kw)
            judge(ctx, "csvdf", f2, exp, options=o)
            ctx.nt("table:" + ",".join(k for k in sorted(o) if o[k]))
            if (j // of) % 7 == li:
                p = os.path.join(d, f"t{part}_{j}_{li}.csv")
                if labs == [0, 1, 2, 3]:
                    df.to_csv(p, index=False)
                    ck = {}
                else:
                    df.to_csv(p, index=True, index_label="row")
                    ck = dict(col_index="row")
                f = WindFarm()
                quiet(ctx, "csv", FL.add_from_csv, f, p if j % 2 else Path(p), **ck, **kw)
                judge(ctx, "csv", f, exp, options=o, labels=labs)
                ctx.nt("csv")
                os.remove(p)


def run_files(ctx):
    d = W.tmpdir()
    df = table(LABELS[0])
    o = dict(nm="label", xy=None, hd="both", pre=["m1"], tt="tt", post=["m3"], shift=None, ids="col", e=1)
    exp = table_want(o, df)
    p = os.path.join(d, "lay")
    df.to_csv(p + ".csv", index=False)
    txt = open(p + ".csv", "rb").read()
    with gzip.open(p + ".csv.gz", "wb") as h:
        h.write(txt)
    with bz2.open(p + ".csv.bz2", "wb") as h:
        h.write(txt)
    with zipfile.ZipFile(p + ".csv.zip", "w") as h:
        h.writestr("lay.csv", txt)
    jd = {"far": {f"J{i}": dict(UTMX=10.5 * i, UTMY=-3.0 * i, id=i + 4, H=90.0 + i, turbine_models=["NREL5MW"]) for i in range(3)}}
    json.dump(jd, open(p + ".json", "w"))
    jexp = [want(i, (10.5 * i, -3.0 * i), ("NREL5MW",) + tuple(TT), i + 4, f"J{i}", None, 90.0 + i) for i in range(3)]
    for suf, mk in itertools.product((".csv", ".csv.gz", ".csv.bz2", ".csv.zip", ".json"), (str, Path)):
        for where in ("absolute", "relative"):
            old = config[FC.INPUT_DIR] if FC.INPUT_DIR in config else None
            cwd = os.getcwd()
            fp = mk(p + suf)
            if where == "relative":
                fp = mk("lay" + suf)
                os.chdir(d)
            try:
                f = WindFarm(name="orig")
                kw = dict(turbine_models=list(TT)) if suf == ".json" else table_call(o)
                quiet(ctx, "file" + suf, FL.add_from_file, f, fp, **kw)
                judge(ctx, "file" + suf, f, jexp if suf == ".json" else exp, how=f"{mk.__name__} {where}")
                if f.name != ("far" if suf == ".json" else "orig"):
                    ctx.fail("file:name", f"farm named {f.name}")
                ctx.nt("file" + suf)
            except Exception as er:
                ctx.fail("file" + suf, f"{type(er).__name__}: {er}", how=f"{mk.__name__} {where}")
            finally:
                os.chdir(cwd)
    # farm layouts that are packed with foxes
    import foxes
    sd = Path(foxes.__file__).parent / "data" / "farms"
    for q in sorted(sd.glob("*.csv")):
        f = WindFarm()
        kw = dict(turbine_models=list(TT))
        ref = pd.read_csv(q)
        if "x" not in ref.columns:
            continue
        quiet(ctx, "static", FL.add_from_file, f, q.name, **kw)
        judge(ctx, "static", f, [want(k, (ref["x"][k], ref["y"][k]), TT) for k in range(len(ref))], file=q.name)
        ctx.nt("static")
    ctx.evals += 1
    try:
        FL.add_from_file(WindFarm(), os.path.join(d, "lay.txt"), verbosity=0)
        ctx.fail("file:unknown", "unknown file format accepted")
    except Exception:
        pass


def run_json(ctx):
    d = W.tmpdir()
    p = os.path.join(d, "f.json")
    for n, keys, sf, e in itertools.product((1, 2, 5), itertools.chain.from_iterable(itertools.combinations(("id", "H", "D", "turbine_models"), r) for r in range(5)), (None, True, False), range(len(EXTRA))):
        E = EXTRA[e]
        for mixed in (False, True):
            F, exp = {}, []
            for i in range(n):
                F[f"n{i*7}"] = t = dict(UTMX=100.25 * i - 3, UTMY=7.0 * i * i)
                if not (mixed and i % 2):
                    for k in keys:
                        t[k] = dict(id=20 - i, H=70.0 + i, D=99.0 + i, turbine_models=[f"own{i}", "kTI"])[k]
                exp.append(want(i, (t["UTMX"], t["UTMY"]), list(t.get("turbine_models", [])) + list(E.get("turbine_models", [])), t.get("id"), f"n{i*7}", t.get("D", E.get("D")), t.get("H", E.get("H"))))
            json.dump({"thefarm": F}, open(p, "w"))
            f = WindFarm(name="mine")
            kw = {} if sf is None else dict(set_farm_name=sf)
            ekw = {k: list(v) if k == "turbine_models" else v for k, v in E.items()}
            quiet(ctx, "json", FL.add_from_json, f, p, **kw, **ekw)
            judge(ctx, "json", f, exp, keys=keys, mixed=mixed)
            if f.name != ("mine" if sf is False else "thefarm"):
                ctx.fail("json:name", f"farm named {f.name} with set_farm_name={sf}")
            ctx.nt("json:" + ",".join(keys))
    json.dump({"a": {}, "b": {}}, open(p, "w"))
    try:
        FL.add_from_json(WindFarm(), p, verbosity=0)
        ctx.fail("json:two", "two farms in one file accepted")
    except Exception:
        ctx.evals += 1


# ------------------------------------------------------------------ histories
def _single(f, k, d):
    f.add_turbine(Turbine(xy=[33.0, 44.5], turbine_models=["NREL5MW"]), verbosity=0)
    return [want(k, (33.0, 44.5), ["NREL5MW"])]


def _named(f, k, d):
    f.add_turbine(Turbine(xy=np.array([-33, 44]), name="own", index=77, D=90.0, H=70.0, turbine_models=TT), verbosity=0)
    return [want(k, (-33, 44), TT, 77, "own", 90.0, 70.0)]


def _grid(f, k, d):
    FL.add_grid(f, (1000, 2000), [[400.0, 0], [30.0, 500]], (2, 2), verbosity=0, turbine_models=TT)
    return [want(k + n, (1000 + 400 * i + 30 * j, 2000 + 500 * j), TT) for n, (i, j) in enumerate(itertools.product(range(2), range(2)))]


def _ring(f, k, d):
    FL.add_ring(f, (5, 6), 300.0, 3, offset_deg=15, verbosity=0, turbine_models=["DTU10MW"])
    R = 900.0 / (2 * np.pi)
    return [want(k + n, (5 + R * np.sin(np.radians(15 + 120 * n)), 6 + R * np.cos(np.radians(15 + 120 * n))), ["DTU10MW"]) for n in range(3)]


def _row(f, k, d):
    FL.add_row(f, (-5.0, 6), (0.0, 450.0), 2, names=["r0", "r1"], verbosity=0, turbine_models=TT)
    return [want(k + n, (-5, 6 + 450 * n), TT, name=f"r{n}") for n in range(2)]


def _df(f, k, d):
    o = dict(nm="label", xy=None, hd="both", pre=None, tt="tt", post=["m3"], shift=None, ids=None, e=0)
    df = table(LABELS[2])
    FL.add_from_df(f, df, verbosity=0, **table_call(o))
    return table_want(o, df, k)


def _csv(f, k, d):
    o = dict(nm=None, xy=("xx", "yy"), hd="hub", pre=["m1"], tt="tt", post=None, shift=True, ids=None, e=1)
    df = table(LABELS[0])
    p = os.path.join(d, "h.csv")
    df.to_csv(p, index=False)
    FL.add_from_file(f, p, verbosity=0, **table_call(o))
    return table_want(o, df, k)


def _json(f, k, d):
    p = os.path.join(d, "h.json")
    json.dump({"x": {"j0": dict(UTMX=1, UTMY=2.5), "j1": dict(UTMX=900.0, UTMY=4, D=70, turbine_models=["kTI_05"])}}, open(p, "w"))
    FL.add_from_file(f, p, verbosity=0, turbine_models=["NREL5MW"])
    return [want(k, (1, 2.5), ["NREL5MW"], name="j0"), want(k + 1, (900, 4), ["kTI_05", "NREL5MW"], name="j1", D=70)]


def _random(f, k, d):
    FL.add_random(f, 3, 300, seed=3, verbosity=0, turbine_models=TT)
    xy = f.xy_array[k:]
    return [want(k + n, xy[n], TT) for n in range(3)]


INPUTS = [_single, _named, _grid, _ring, _row, _df, _csv, _json, _random]


def run_history(ctx, first):
    d = W.tmpdir()
    for seq in itertools.product([first], range(len(INPUTS)), range(len(INPUTS))):
        f = WindFarm()
        exp = []
        other = WindFarm()
        for s in seq:
            exp = exp + INPUTS[s](f, len(exp), d)
            ctx.trans += 1
            judge(ctx, "history", f, exp, seq=[INPUTS[i].__name__ for i in seq])
        # farms do not share anything
        if other.n_turbines:
            ctx.fail("history:shared", "another farm got turbines")
        # turbines neither
        for i in range(len(exp)):
            f.turbines[i].add_model("added")
            e2 = exp[i]
            exp[i] = e2[:3] + (e2[3] + ("added",), e2[4] + 1) + e2[5:]
            ctx.trans += 1
        f.turbines[0].insert_model(0, "front")
        e2 = exp[0]
        exp[0] = e2[:3] + (("front",) + e2[3], e2[4] + 1) + e2[5:]
        f.turbines[0].xy[0] += 1.0
        exp[0] = exp[0][:2] + ((exp[0][2][0] + 1.0, exp[0][2][1]),) + exp[0][3:]
        judge(ctx, "history:alias", f, exp, seq=[INPUTS[i].__name__ for i in seq])
        # a later input is not affected by that
        g = WindFarm()
        e3 = INPUTS[seq[1]](g, 0, d)
        judge(ctx, "history:later", g, e3)
        ctx.nt("history")


def run_turbine(ctx):
    """turbines hold their own copies; names, positions and selections are as stated"""
    for xy, models, idx, nm, D, H in itertools.product(([1.5, 2], (3, 4.0), np.array([5.0, 6.0])), ([], ["a"], ("a", "b")), (None, 0, 9), (None, "", "N"), (None, 80.0), (None, 70.0)):
        for pos in range(3):
            f = WindFarm()
            for i in range(pos):
                f.add_turbine(Turbine(xy=[0.0, 0.0]), verbosity=0)
            x = np.array(xy) if isinstance(xy, np.ndarray) else xy
            m = list(models)
            t = Turbine(xy=x, turbine_models=m, index=idx, name=nm, D=D, H=H)
            f.add_turbine(t, verbosity=0)
            exp = [want(i, (0, 0)) for i in range(pos)] + [want(pos, xy, models, idx, nm, D, H)]
            judge(ctx, "turbine", f, exp)
            m.append("later")
            if isinstance(x, np.ndarray):
                x += 3
            judge(ctx, "turbine:alias", f, exp)
            ctx.nt("turbine")
    sel = np.array([True, False])
    for k in range(4):
        t = Turbine(xy=[0, 0], turbine_models=["a", "b", "c"], models_state_sel=[None, sel, None])
        t.insert_model(k, "n", ~sel)
        t.add_model("z", sel)
        ms, ss = ["a", "b", "c"], [None, sel, None]
        ms.insert(k, "n")
        ss.insert(k, ~sel)
        ms.append("z")
        ss.append(sel)
        ctx.evals += 1
        if t.models != ms or len(t.mstates_sel) != 5 or not all((a is None and b is None) or (a is not None and b is not None and np.array_equal(a, b)) for a, b in zip(t.mstates_sel, ss)):
            ctx.fail("turbine:insert", f"{t.models} {t.mstates_sel} instead of {ms} {ss}")
    t = Turbine(xy=[0, 0])
    t.add_model("x")
    u = Turbine(xy=[0, 0])
    if u.models or u.mstates_sel:
        ctx.fail("turbine:shared", "turbines share a list of models")
    f = WindFarm()
    f.add_turbine(u, verbosity=0)
    if WindFarm().turbines:
        ctx.fail("turbine:shared", "farms share turbines")


class _Ctrl:
    def __init__(self, n):
        self.turbine_types = [type("T", (), dict(D=100.0 + 5 * i, H=80.0 + 3 * i))() for i in range(n)]


def run_queries(ctx):
    """counts, names, positions, bounds, diameters and heights"""
    pts = [(0.0, 0.0), (500.5, -70.0), (-250.0, 900.0), (30.0, 410.25)]
    for n in range(1, 5):
        for order in itertools.permutations(range(4), n):
            for dh in itertools.product((None, 1), repeat=n):
                f = WindFarm(name="q")
                for i, k in enumerate(order):
                    f.add_turbine(Turbine(xy=pts[k], D=None if dh[i] is None else 60.0 + k, H=None if dh[-1 - i] is None else 50.0 + k, turbine_models=["NREL5MW"]), verbosity=0)
                algo = type("A", (), {})()
                algo.farm_controller = _Ctrl(n)
                algo.farm = f
                D = np.array([100.0 + 5 * i if dh[i] is None else 60.0 + k for i, k in enumerate(order)])
                H = np.array([80.0 + 3 * i if dh[-1 - i] is None else 50.0 + k for i, k in enumerate(order)])
                xy = np.array([pts[k] for k in order])
                ctx.evals += 1
                ctx.state((order, dh))
                if f.n_turbines != n or f.turbine_names != [f"T{i}" for i in range(n)] or f.name != "q":
                    ctx.fail("queries:names", f"{f.n_turbines} {f.turbine_names}")
                if not np.array_equal(f.xy_array, xy):
                    ctx.fail("queries:xy", f"{f.xy_array}")
                if not np.array_equal(f.get_rotor_diameters(algo), D):
                    ctx.fail("queries:D", f"{f.get_rotor_diameters(algo)} instead of {D}")
                if not np.array_equal(f.get_hub_heights(algo), H):
                    ctx.fail("queries:H", f"{f.get_hub_heights(algo)} instead of {H}")
                for sp in (None, 0, 25.5, 300, "0D", "2.5D", "10D"):
                    r = 0.0 if sp is None else sp
                    rr = float(r[:-1]) * D[:, None] if isinstance(r, str) else r
                    lo, hi = (xy - rr).min(axis=0), (xy + rr).max(axis=0)
                    for rep in range(2):
                        a, b = f.get_xy_bounds(extra_space=sp, algo=algo)
                        if not (np.allclose(a, lo) and np.allclose(b, hi)):
                            ctx.fail("queries:bounds", f"extra {sp}: {a}, {b} instead of {lo}, {hi}")
                if not np.array_equal(f.xy_array, xy):
                    ctx.fail("queries:mutation", "asking for bounds moved turbines")
                ctx.nt("queries")


def run_boundary(ctx):
    shapes = [("circle", lambda: geom2d.Circle([100.0, 50.0], 300.0), [-200.0, -250.0], [400.0, 350.0]),
              ("polygon", lambda: geom2d.ClosedPolygon(np.array([[0.0, 0.0], [500.0, 100.0], [200.0, 700.0]])), [0.0, 0.0], [500.0, 700.0]),
              ("union", lambda: geom2d.Circle([0.0, 0.0], 100.0) + geom2d.Circle([400.0, 0.0], 50.0), [-100.0, -100.0], [450.0, 100.0])]
    for nm, mk, lo, hi in shapes:
        f = WindFarm(boundary=mk())
        algo = type("A", (), {})()
        algo.farm_controller = _Ctrl(3)
        for i in range(3):
            f.add_turbine(Turbine(xy=[20.0 * i, 5.0 * i], D=None if i == 2 else 80.0), verbosity=0)
        # 110 is the largest diameter (type of the last turbine)
        for seq in itertools.product((None, 0, 40.0, "2D", "0.5D"), repeat=3):
            for sp in seq:
                e = 0.0 if sp is None else (float(sp[:-1]) * 110.0 if isinstance(sp, str) else sp)
                a, b = f.get_xy_bounds(extra_space=sp, algo=algo)
                ctx.evals += 1
                if not (np.allclose(a, np.array(lo) - e) and np.allclose(b, np.array(hi) + e)):
                    ctx.fail("boundary", f"{nm} extra {sp}: {a}, {b}")
            ctx.state((nm, seq))
            ctx.nt("boundary")


def run_farm(ctx, what):
    """calculations with the layout equal those with turbines placed by hand"""
    d = W.tmpdir()
    f = WindFarm()
    exp = INPUTS[what](f, 0, d)
    mods = ["TA", "kTI_02"]
    g = WindFarm()
    for e in exp:
        g.add_turbine(Turbine(xy=np.array(e[2]), index=e[0], name=e[1], D=e[6], H=e[7], turbine_models=mods), verbosity=0)
    for t in f.turbines:
        t.models[:] = mods
        t.mstates_sel[:] = [None, None]
    a, b = [W.run_farm(w(farm_obj=x, states=ST4, wakes=["Bastankhah2014_linear_k004"])) for x in (f, g)]
    ctx.evals += 2
    ctx.nt("farm")
    ctx.state(what)
    bad = W.diff(W.obs(a), W.obs(b), rtol=1e-9)
    if bad:
        ctx.fail("farm", str(bad)[:200], what=INPUTS[what].__name__)


def run(case, ctx):
    k = {a: b for a, b in case.items() if a != "kind"}
    globals()["run_" + case["kind"]](ctx, **k)
