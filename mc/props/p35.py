"""P35 nothing that is given to foxes is changed by it"""
import collections, importlib, inspect, itertools, os, pkgutil, sys, types
import numpy as np
import pandas as pd
import xarray as xr
import foxes
import foxes.variables as FV
import foxes.constants as FC
from foxes.core import Model
from mc import worlds as W
from mc.catalog import worlds, w, XY3, ST4, TS4, TSD

ID = "P35"
LEVEL = "model_checking"
ASSUMPTIONS = ["containers that are watched: lists, dicts, sets, arrays, data frames, series, data sets; data that is only loaded on demand is not read",
               "calls: those of the harnesses of the other properties (a fixed part of them in the quick tier), of every world of the catalogue and its outputs"]

# calls that are there to change their argument
INTENDED = {
    "FarmResultsEval.add_capacity", "FarmResultsEval.add_efficiency",
}

# ---- snapshots --------------------------------------------------------------------------------------

WATCH = (list, dict, set, np.ndarray, pd.DataFrame, pd.Series, xr.Dataset, xr.DataArray)


def snap(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()))
    if isinstance(x, pd.DataFrame):
        return ("df", tuple(map(str, x.columns)), repr(x.index[:5]), len(x.index), tuple(snap(x.iloc[:, i].to_numpy()) for i in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ("sr", x.name, repr(x.index[:5]), snap(x.to_numpy()))
    if isinstance(x, xr.DataArray):
        return ("da", x.dims, snap(x.variable._data) if isinstance(x.variable._data, np.ndarray) else "lazy", tuple(sorted(map(str, x.coords))))
    if isinstance(x, xr.Dataset):
        return ("ds", tuple((str(k), v.dims, snap(v._data) if isinstance(v._data, np.ndarray) else "lazy") for k, v in sorted(x.variables.items(), key=lambda q: str(q[0]))),
                tuple(map(str, x.data_vars)), tuple(sorted(map(str, x.attrs))))
    if depth > 6:
        return "deep"
    if isinstance(x, dict):
        return ("dict", tuple((repr(k) if not isinstance(k, str) else k, snap(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, (str, int, float, bool, type(None), np.generic)):
        return repr(x)
    return ("obj", id(x))


def first_diff(a, b, path=""):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                n = f"{path}/{p[0] if isinstance(p, tuple) and p and isinstance(p[0], str) else i}"
                return first_diff(p, q, n)
    return f"{path}: {str(a)[:120]} -> {str(b)[:160]}"


# ---- the watch: outermost calls from the harness into the package ---------------------------------------

ROOT = os.path.dirname(foxes.__file__) + os.sep
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


class Watch:
    """follows every call from harness code into foxes: no container handed over may change during the call,
    nor any container that was handed over in an earlier call"""

    def __init__(self, ctx, keep=25):
        self.ctx = ctx
        self.keep = keep
        self.live = {}
        self.top = None
        self.codes = {}
        self.ncalls = 0

    def _where(self, co):
        v = self.codes.get(co)
        if v is None:
            f = co.co_filename
            v = self.codes[co] = 1 if f.startswith(ROOT) else 2 if f.startswith(HERE) else 0
        return v

    def hook(self, frame, event, arg):
        if self.top is None:
            if event == "call" and self._where(frame.f_code) == 1:
                b = frame.f_back
                if b is not None and self._where(b.f_code) == 2:
                    self.enter(frame)
        elif event == "return" and frame is self.top:
            self.leave(frame)

    def enter(self, frame):
        co = frame.f_code
        if co.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE):
            return
        name = getattr(co, "co_qualname", co.co_name)
        if name in INTENDED:
            return
        loc = frame.f_locals
        n = co.co_argcount + co.co_kwonlyargcount
        names = list(co.co_varnames[:n])
        vals = {k: loc[k] for k in names if k in loc and k != "self"}
        if co.co_flags & inspect.CO_VARARGS:
            for i, v in enumerate(loc.get(co.co_varnames[n], ())):
                vals[f"*{i}"] = v
            n += 1
        if co.co_flags & inspect.CO_VARKEYWORDS:
            vals.update(loc.get(co.co_varnames[n], {}))
        me = loc.get("self")
        for q, (o, s, nm) in list(self.live.items()):
            t = snap(o)
            if t != s:
                self.live[q] = (o, t, nm)
        for k, v in vals.items():
            if isinstance(v, WATCH) and v is not me and id(v) not in self.live:
                while len(self.live) >= self.keep:
                    self.live.pop(next(iter(self.live)))
                self.live[id(v)] = (v, snap(v), f"{name}({k})")
        self.top = frame
        self.ncalls += 1
        self.ctx.state(("call", name, tuple(sorted(k for k, v in vals.items() if isinstance(v, WATCH)))))

    def leave(self, frame):
        name = getattr(frame.f_code, "co_qualname", frame.f_code.co_name)
        me = frame.f_locals.get("self")
        for q, (o, s, nm) in list(self.live.items()):
            t = snap(o)
            self.ctx.evals += 1
            if t != s:
                self.live[q] = (o, t, nm)
                if o is me:
                    continue
                self.ctx.fail(f"input:{nm}:{name}", f"the {type(o).__name__} given as {nm} was changed by {name}: {first_diff(s, t)}")
        self.top = None

    def __enter__(self):
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        self.live.clear()


# ---- default arguments and class attributes ---------------------------------------------------------------

def all_modules():
    out = []
    for m in pkgutil.walk_packages(foxes.__path__, "foxes."):
        if "windio" in m.name:
            continue
        try:
            out.append(importlib.import_module(m.name))
        except ImportError:
            pass
    return out


def unwrap(f):
    while True:
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        elif isinstance(f, property):
            f = f.fget
        elif hasattr(f, "__wrapped__"):
            f = f.__wrapped__
        else:
            return f


def statics():
    """name -> container: mutable default arguments and class attributes of the whole package"""
    out = {}
    for m in all_modules():
        todo = [(m.__name__, k, v) for k, v in vars(m).items()]
        for k, v in list(vars(m).items()):
            if inspect.isclass(v) and v.__module__ == m.__name__:
                todo += [(f"{m.__name__}.{k}", a, b) for a, b in vars(v).items()]
                todo = [t for t in todo]
        for pre, k, v in todo:
            v = unwrap(v)
            if isinstance(v, types.FunctionType):
                if v.__module__ != m.__name__:
                    continue
                ps = inspect.signature(v).parameters
                for n, p in ps.items():
                    if isinstance(p.default, WATCH):
                        out[f"{pre}.{k}({n})"] = p.default
            elif isinstance(v, (list, dict, set, np.ndarray)) and "." in pre[len(m.__name__):] and not k.startswith("__") and k != "_ids":
                out[f"{pre}.{k}"] = v
    return out


_S = None


def check_statics(ctx, where):
    global _S
    if _S is None:
        d = statics()
        _S = {k: [v, snap(v)] for k, v in d.items()}
        ctx.counters["defaults"] = len(_S)
        return
    for k, q in _S.items():
        t = snap(q[0])
        ctx.evals += 1
        if t != q[1]:
            ctx.fail(f"default:{k}", f"{k} changed in {where}: {first_diff(q[1], t)}", where=where)
            q[1] = t


# ---- workloads ---------------------------------------------------------------------------------------------

# property modules whose harness calls are followed, and the fraction of their cases in the quick tier
FOLLOW = dict(p10=6, p12=6, p15=5, p16=9, p18=8, p19=8, p20=5, p21=6, p22=15, p23=25, p24=6, p25=20, p26=16, p27=15, p28=6, p30=6, p31=7, p32=16, p37=8, p38=6, p08=80, p09=12, p40=15)


class Quiet:
    """what the followed harness may do with its context"""

    def __init__(self, tier):
        self.tier, self.evals, self.trans, self.capped, self.counters, self.seed = tier, 0, 0, False, collections.Counter(), 1

    def fail(self, *a, **k):
        pass

    state = nt = sample = fail

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **q: None


def follow_cases(tier):
    out = []
    for m, step in FOLLOW.items():
        mod = importlib.import_module(f"mc.props.{m}")
        n = len(mod.cases("quick"))
        sel = range(n) if tier == "thorough" else sorted(set(range(0, n, max(1, step))) | {n - 1})
        out += [dict(kind="follow", mod=m, i=i) for i in sel]
    return out


def cases(tier):
    names = list(worlds())
    out = [dict(kind="world", name=n) for n in names]
    out += [dict(kind="shared")]
    return out + follow_cases(tier)


PTS = [[-150.0, 10.0, 90.0], [300.0, 0.0, 80.0], [720.0, 30.0, 110.0], [1500.0, -20.0, 60.0]]


def scramble(ds):
    """overwrites the data of a data set in place, as far as it can be written to"""
    n = 0
    for k in list(ds.data_vars) + list(ds.coords):
        v = ds[k].variable._data
        if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fi" and k not in ds.dims:
            v[...] = -7
            n += 1
    return n


def world(ctx, name, spec):
    ctx.trans += 1
    ctx.nt(name)
    eng = [("single", {}), ("threads", dict(n_procs=2, chunk_size_states=2))]
    if name.startswith("dyn:"):
        eng = eng[:1]
    for e in eng:
        # 1. the given containers stay as they are
        with Watch(ctx) as wt:
            with W.engine(e[0], **e[1]):
                algo = W.build(spec)
                pts = np.array(PTS)
                r = algo.calc_farm()
                p = algo.calc_points(r, pts)
                q = algo.calc_points(r, pts, outputs=[FV.WS, FV.AMB_WS])
                calc = dict(outputs=[FV.P, FV.REWS])
                s = algo.calc_farm(**calc)
                from foxes import output as FO
                if FV.P in r and not np.isnan(r[FV.P]).any():
                    FO.FarmResultsEval(r).reduce_all(states_op={FV.P: "weights"}, turbines_op={FV.P: "sum"})
                    FO.FarmResultsEval(r).calc_turbine_yield(algo=algo, annual=True)
                FO.StateTurbineTable(r).get_dataset([FV.REWS], name_map={FV.REWS: "u"})
        ctx.counters["calls"] = ctx.counters.get("calls", 0) + wt.ncalls
        check_statics(ctx, name)
        # 2. results belong to the caller: writing into them changes neither later results nor earlier ones
        with W.engine(e[0], **e[1]):
            algo = W.build(spec)
            r1 = algo.calc_farm()
            o1 = W.obs(r1.copy(deep=True))
            pts = np.array(PTS)
            p1 = algo.calc_points(r1, pts)
            op = W.obs(p1.copy(deep=True))
            keep = r1.copy(deep=True)
            pts[...] = 1e6
            bad = W.diff(W.obs(p1), op, rtol=0, atol=0)
            if bad:
                ctx.fail("alias:points", f"point results share data with the given points: {bad[1]}", world=name)
            scramble(p1)
            bad = W.diff(W.obs(r1), o1, rtol=0, atol=0)
            if bad:
                ctx.fail("alias:farm", f"farm results share data with point results: {bad[1]}", world=name)
            r2 = algo.calc_farm()
            o2 = W.obs(r2.copy(deep=True))
            scramble(r1)
            bad = W.diff(W.obs(r2), o2, rtol=0, atol=0)
            if bad:
                ctx.fail("alias:runs", f"results of two runs share data: {bad[1]}", world=name)
            scramble(r2)
            r3 = algo.calc_farm()
            for nm, o in (("second", o2), ("third", W.obs(r3))):
                bad = W.diff(o, o1, rtol=1e-9 if spec.get("algo") != "Iterative" else 1e-5)
                if bad:
                    ctx.fail("alias:later", f"after writing into earlier results the {nm} run differs: {bad[1]}", world=name)
            p3 = algo.calc_points(keep, np.array(PTS))
            bad = W.diff(W.obs(p3), op, rtol=1e-8 if spec.get("algo") != "Iterative" else 1e-5, atol=1e-7)
            if bad:
                ctx.fail("alias:points", f"after writing into earlier results the points differ: {bad[1]}", world=name)
            ctx.state((name, e[0], W.digest(o1)))
            ctx.evals += 6


def shared(ctx):
    """objects that are created with the same arguments, or with none, share nothing that they change"""
    from foxes.core import PointDataModelList, FarmDataModelList, WindFarm, Turbine
    from foxes.algorithms.iterative.models import convergence as C
    from foxes.algorithms.sequential import Sequential
    from foxes.input import farm_layout as FL
    import foxes.models as fm
    mk = [
        ("PointDataModelList", lambda: PointDataModelList(), lambda o: o.append(fm.point_models.TKE2TI()), lambda o: len(o.models)),
        ("FarmDataModelList", lambda: FarmDataModelList(), lambda o: o.append(fm.turbine_models.kTI(0.1)), lambda o: len(o.models)),
        ("WindFarm", lambda: WindFarm(), lambda o: o.add_turbine(Turbine(xy=np.zeros(2)), verbosity=0), lambda o: o.n_turbines),
        ("Turbine", lambda: Turbine(xy=np.zeros(2)), lambda o: o.add_model("a"), lambda o: list(o.models)),
        ("ConvCritList", lambda: C.ConvCritList(), lambda o: o.add_crit(C.DefaultConv()), lambda o: len(o.crits)),
    ]
    for nm, new, change, see in mk:
        ctx.trans += 1
        ctx.evals += 1
        ctx.state(("shared", nm))
        a, b = new(), new()
        s0 = see(b)
        change(a)
        if see(a) == s0:
            ctx.fail(f"shared:{nm}:void", "the change has no effect")
        if see(b) != s0 or see(new()) != s0:
            ctx.fail(f"shared:{nm}", f"a change of one object appears in another one: {see(b)}, {see(new())} instead of {s0}")
    # one list of models for many turbines, one list of wake models for many algorithms
    ml, xy = ["TA", "kTI_02"], np.array([5.0, 6.0])
    farm = WindFarm()
    FL.add_row(farm, xy_base=xy, xy_step=[500.0, 0.0], n_turbines=3, turbine_models=ml, verbosity=0)
    ctx.evals += 1
    farm.turbines[0].add_model("yaw") if hasattr(farm.turbines[0], "add_model") else None
    farm.turbines[1].xy[0] += 100.0
    if ml != ["TA", "kTI_02"] or list(xy) != [5.0, 6.0] or farm.turbines[1].models != ml or farm.turbines[2].models != ml or farm.turbines[0].xy[0] != 5.0 or farm.turbines[2].xy[0] != 1005.0:
        ctx.fail("shared:turbines", f"turbines of one layout share their models or positions: {[(t.models, t.xy) for t in farm.turbines]}, {ml}, {xy}")


def run(case, ctx):
    check_statics(ctx, "start")
    if case["kind"] == "world":
        world(ctx, case["name"], worlds()[case["name"]])
    elif case["kind"] == "shared":
        shared(ctx)
    else:
        mod = importlib.import_module("mc.props." + case["mod"])
        c = mod.cases("quick")[case["i"]]
        ctx.trans += 1
        ctx.nt((case["mod"], case["i"]))
        try:
            with Watch(ctx) as wt:
                mod.run(c, Quiet("quick"))
        finally:
            sys.setprofile(None)
        ctx.counters["calls"] = ctx.counters.get("calls", 0) + wt.ncalls
    check_statics(ctx, str(case))
