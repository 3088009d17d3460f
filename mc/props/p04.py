"""P04 engine life cycle: at most one engine is set, and rejected operations change nothing"""
import itertools
import gc
import numpy as np
import foxes
from foxes.core import Engine, get_engine, has_engine, reset_engine, TurbineModel
import foxes.variables as FV
from mc import worlds as W
from mc.catalog import w

ID = "P04"
LEVEL = "model_checking"
ASSUMPTIONS = ["all operation sequences up to the given depth over two user-held engines, compared step by step with a "
               "reference automaton (which engine is set; which engines are entered)",
               "engine kinds single, numpy, threads, default, process, dask"]

SPEC = w(xy=[[0.0, 0.0], [500.0, 0.0]], models=["TA"], wakes=["Jensen_linear_k007"],
         states=dict(kind="table", ws=[8.0, 10.0, 9.0], wd=[270.0, 90.0, 180.0], w=[0.3, 0.3, 0.4]))
OPS = ["enter0", "exit0", "init0", "fin0", "enter1", "exit1", "init1", "fin1", "reset", "calc", "fail", "map", "algo"]


class Odd(Exception):
    pass


class Bomb(TurbineModel):
    def output_farm_vars(self, algo):
        return [FV.P]

    def calculate(self, algo, mdata, fdata, st_sel):
        raise Odd("boom")


def double(x):
    return 2 * x


def cases(tier):
    pairs = [("numpy", "threads"), ("single", "default"), ("default", "numpy"), ("threads", "threads"), ("dask", "numpy")]
    slow = [("process", "numpy"), ("default", "process"), ("xarray", "multiprocess")]
    out = []
    for a, b in pairs:
        for first in OPS:
            for second in OPS:
                out.append(dict(kinds=[a, b], prefix=[first, second], depth=(4 if a == "default" else 3) if tier == "quick" else 5))
    for a, b in slow:
        for first in OPS:
            out.append(dict(kinds=[a, b], prefix=[first], depth=3 if tier == "quick" else 4))
    return out


class Model:
    """reference automaton"""

    def __init__(self):
        self.reg = None            # None, 0, 1, "D" (default), "A" (created by an algorithm)
        self.ent = [False, False]

    def op(self, o):
        """returns 'ok' or 'err'"""
        if o[-1] in "01":
            i = int(o[-1])
            k = o[:-1]
            if k in ("enter", "init"):
                if self.ent[i]:
                    return "err" if k == "enter" else "ok"
                if self.reg is not None:
                    return "err"
                self.reg, self.ent[i] = i, True
                return "ok"
            if not self.ent[i]:
                return "err" if k == "exit" else "ok"
            self.ent[i] = False
            self.reg = None
            return "ok"
        if o == "reset":
            if self.reg in (0, 1):
                self.ent[self.reg] = False
            self.reg = None
            return "ok"
        if o in ("calc", "map", "fail"):
            if self.reg is None:
                self.reg = "D"
            return "err" if o == "fail" else "ok"
        if o == "algo":
            if self.reg is not None:
                return "err"
            self.reg = "A"
            return "ok"


REF = None


def ref():
    global REF
    if REF is None:
        REF = W.obs(W.run_farm(SPEC))
    return REF


def reset_hard():
    try:
        reset_engine()
    except Exception:
        pass


def execute(kinds, seq, ctx):
    reset_hard()
    kw = lambda k: dict(progress_bar=False) if k in ("dask", "xarray") else {}
    E = [Engine.new(k, n_procs=2, verbosity=0, **kw(k)) for k in kinds]
    M = Model()
    keep = []
    try:
        for n, o in enumerate(seq):
            exp = M.op(o)
            res, err = "ok", None
            try:
                if o[-1] in "01":
                    e = E[int(o[-1])]
                    dict(enter=e.__enter__, init=e.initialize, fin=e.finalize,
                         exit=lambda: e.__exit__(None, None, None))[o[:-1]]()
                elif o == "reset":
                    reset_engine()
                elif o == "calc":
                    # no engine set: the documented default is used (kept small)
                    g = get_engine(error=False, default=dict(engine_type="default", verbosity=0, n_procs=2))
                    r = W.build(SPEC).calc_farm()
                    d = W.diff(ref(), W.obs(r), skip=("order_ssel",), bcast=True)
                    if d:
                        ctx.fail(f"calc|{d[0]}", f"{kinds} {seq[:n + 1]}: {d[1]}")
                elif o == "map":
                    g = get_engine(error=False, default=dict(engine_type="numpy", verbosity=0, n_procs=2))
                    r = list(g.map(double, [1, 2, 3]))
                    if r != [2, 4, 6]:
                        ctx.fail("map", f"{kinds} {seq[:n + 1]}: {r}")
                elif o == "fail":
                    g = get_engine(error=False, default=dict(engine_type="default", verbosity=0, n_procs=2))
                    mb = W.mbook()
                    mb.turbine_models["bomb"] = Bomb()
                    W.build(SPEC, mbook=mb, models=["TA", "bomb"]).calc_farm()
                elif o == "algo":
                    keep.append(W.build(dict(SPEC, algo_kw=dict(engine="numpy", n_procs=1))))
            except Odd as e:
                res, err = ("err", e) if o == "fail" else ("odd", e)
            except ValueError as e:
                res, err = "err" if o != "fail" else "odd", e
            ctx.trans += 1
            g = get_engine(error=False, default=False)
            which = None if g is None else (0 if g is E[0] else 1 if g is E[1] else "other")
            expw = M.reg if M.reg in (None, 0, 1) else "other"
            obs = (res, which, E[0].entered, E[1].entered, E[0].initialized, E[1].initialized)
            want = (exp, expw, M.ent[0], M.ent[1], M.ent[0], M.ent[1])
            ctx.state((tuple(kinds), obs, o))
            if obs != want:
                ctx.fail(f"{o}", f"{kinds} after {seq[:n + 1]}: (outcome, set engine, entered, entered, initialized, initialized) = "
                                 f"{obs}, expected {want}; error: {err!r}", seq=seq[:n + 1])
                return
            if has_engine() != (M.reg is not None):
                ctx.fail("has_engine", f"{kinds} after {seq[:n + 1]}: has_engine() = {has_engine()}")
    finally:
        reset_hard()
        for e in E:
            try:
                e.finalize()
            except Exception:
                pass


def run(case, ctx):
    ref()
    if case.get("seq"):
        return execute(case["kinds"], case["seq"], ctx)
    pre = case["prefix"]
    for rest in itertools.product(OPS, repeat=case["depth"] - len(pre)):
        execute(case["kinds"], pre + list(rest), ctx)
        ctx.evals += 1
