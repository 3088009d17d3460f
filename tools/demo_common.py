"""Demonstration; exits nonzero if the property is broken on this input."""
import os, sys, io, tempfile, contextlib
import numpy as np
import pandas as pd
import foxes
import foxes.variables as FV
from foxes.core import Engine, Turbine, WindFarm
from foxes.models import ModelBook
from foxes.models.turbine_types import PCtFile
from foxes.input.states import StatesTable, Timeseries

WS = np.array([0.0, 3.0, 4.0, 6.0, 8.0, 10.0, 12.0, 14.0, 25.0])
CA = pd.DataFrame({"ws": WS, "P": [0, 0, 100.0, 500.0, 1300.0, 2500.0, 4100.0, 5000.0, 5000.0],
                   "ct": [0, 0, 0.82, 0.80, 0.78, 0.74, 0.6, 0.4, 0.1]})
CB = pd.DataFrame({"ws": WS, "P": [0, 0, 60.0, 350.0, 900.0, 1700.0, 2600.0, 3000.0, 3000.0],
                   "ct": [0, 0, 0.72, 0.70, 0.66, 0.60, 0.5, 0.3, 0.08]})
XY3 = [[0.0, 0.0], [460.0, 35.0], [930.0, -45.0]]


def mbook():
    mb = ModelBook()
    mb.turbine_types["TA"] = PCtFile(CA, D=100.0, H=90.0, P_nominal=5000.0)
    mb.turbine_types["TB"] = PCtFile(CB, D=70.0, H=70.0, P_nominal=3000.0)
    return mb


def farm(xy=XY3, models=("TA", "kTI_02"), names=None, **kw):
    f = WindFarm()
    for i, p in enumerate(xy):
        m = list(models[i]) if isinstance(models[0], (list, tuple)) else list(models)
        f.add_turbine(Turbine(xy=np.array(p), turbine_models=m, name=names[i] if names else f"T{i}",
                              **{k: v[i] for k, v in kw.items()}), verbosity=0)
    return f


def states(ws=(8.0, 9.5, 10.5, 6.0), wd=(270.0, 93.0, 10.0, 181.0), ti=(0.06, 0.1, 0.08, 0.12), rho=(1.2, 1.225, 1.25, 1.18), w=None, time=False):
    n = len(ws)
    d = pd.DataFrame({"ws": ws, "wd": wd, "ti": ti[:n] if len(ti) >= n else [0.08] * n, "rho": rho[:n] if len(rho) >= n else [1.225] * n})
    v2c = {FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho"}
    if time:
        d.index = pd.date_range("2020-01-01", periods=n, freq="10min")
        d.index.name = "Time"
        return Timeseries(d, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=v2c)
    d["weight"] = np.ones(n) / n if w is None else w
    v2c[FV.WEIGHT] = "weight"
    return StatesTable(d, output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO], var2col=v2c)


def algo(farm_, states_, cls=foxes.algorithms.Downwind, mb=None, wakes=("Bastankhah2014_linear_k004",), **kw):
    return cls(farm_, states_, wake_models=list(wakes), mbook=mb or mbook(), verbosity=0, **kw)


@contextlib.contextmanager
def engine(kind="single", **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        with Engine.new(kind, verbosity=0, **kw):
            yield


def same(a, b, what, rtol=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.allclose(a, b, rtol=rtol, atol=1e-9, equal_nan=True):
        print("BROKEN:", what)
        print(a)
        print(b)
        sys.exit(1)


def check(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)
