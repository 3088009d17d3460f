"""P07 a failing calculation reports its own error and leaves algorithm and engine usable"""
import numpy as np
from foxes.core import TurbineModel, PointDataModel, get_engine
from foxes.input.states import StatesTable
from foxes.models.wake_models.wind import JensenWake
from foxes.models.rotor_models import CentreRotor
import foxes.variables as FV
from mc import worlds as W
from mc.catalog import w

ID = "P07"
LEVEL = "fault_enumeration"
RULE = "distinct (algorithm, engine, chunking, fault site, chunk, call number) at which an error was actually injected"
ASSUMPTIONS = [
    "one error per run, raised by a model the user plugged in, at every call of that model in every chunk",
    "sites: turbine model, wind wake model, states, rotor model, point model; during farm or point calculation, or while loading model data",
    "errors are ordinary exceptions; killed worker processes are not simulated",
]


class Boom(Exception):
    pass


class Fault:
    """mixin: raises at the n-th call in the chunk that starts at i0 (counted per chunk)"""
    arm = None

    def tick(self, mdata):
        if self.__dict__.get("arm") is None:
            return
        i0, n = self.arm
        k = int(mdata.states_i0(counter=True))
        c = self.__dict__.setdefault("cnt", {})
        c[k] = c.get(k, 0) + 1
        if k == i0 and c[k] == n:
            raise Boom(f"chunk {i0} call {n}")

    def tload(self):
        if self.__dict__.get("arm") == "load":
            raise Boom("load")


class FTurb(Fault, TurbineModel):
    def output_farm_vars(self, algo):
        return [FV.P]

    def load_data(self, algo, verbosity=0):
        self.tload()
        return super().load_data(algo, verbosity)

    def calculate(self, algo, mdata, fdata, st_sel):
        self.tick(mdata)
        return {FV.P: fdata[FV.P]}


class FWake(Fault, JensenWake):
    def load_data(self, algo, verbosity=0):
        self.tload()
        return super().load_data(algo, verbosity)

    def contribute(self, algo, mdata, *args, **kwargs):
        self.tick(mdata)
        return super().contribute(algo, mdata, *args, **kwargs)


class FStates(Fault, StatesTable):
    def load_data(self, algo, verbosity=0):
        self.tload()
        return super().load_data(algo, verbosity)

    def calculate(self, algo, mdata, fdata, tdata):
        self.tick(mdata)
        return super().calculate(algo, mdata, fdata, tdata)


class FRotor(Fault, CentreRotor):
    def load_data(self, algo, verbosity=0):
        self.tload()
        return super().load_data(algo, verbosity)

    def calculate(self, algo, mdata, fdata, *args, **kwargs):
        self.tick(mdata)
        return super().calculate(algo, mdata, fdata, *args, **kwargs)


class FPoint(Fault, PointDataModel):
    def output_point_vars(self, algo):
        return [FV.WS]

    def calculate(self, algo, mdata, fdata, tdata):
        self.tick(mdata)
        return {FV.WS: tdata[FV.WS]}


ST = dict(kind="table", ws=[8.0, 9.5, 10.5, 6.0], wd=[270.0, 93.0, 10.0, 181.0], ti=[0.06, 0.1, 0.08, 0.12],
          rho=[1.2, 1.225, 1.25, 1.18], w=[0.1, 0.2, 0.3, 0.4])
PTS = np.array([[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0]])
SITES = ["turb", "wake", "states", "rotor", "point"]


def setup(case):
    mb = W.mbook()
    m = {"turb": FTurb(), "wake": FWake(superposition="ws_linear", k=0.07), "rotor": FRotor(), "point": FPoint()}
    mb.turbine_models["ft"] = m["turb"]
    mb.wake_models["fw"] = m["wake"]
    mb.rotor_models["fr"] = m["rotor"]
    mb.point_models["fp"] = m["point"]
    st = FStates(W.sframe(ST), output_vars=[FV.WS, FV.WD, FV.TI, FV.RHO],
                 var2col={FV.WS: "ws", FV.WD: "wd", FV.TI: "ti", FV.RHO: "rho", FV.WEIGHT: "weight"})
    m["states"] = st
    spec = w(algo=case["algo"], states=st, models=["TA", "kTI_02", "ft"], wakes=["fw"], rotor_model="fr")
    return W.build(spec, mbook=mb), m


ENGINES = [("single", {}), ("numpy", dict(chunk_size_states=1)), ("numpy", dict(chunk_size_states=2)),
           ("numpy", dict(chunk_size_states=3)), ("threads", dict(chunk_size_states=2, n_procs=2)),
           ("process", dict(chunk_size_states=2, n_procs=2)), ("default", dict(n_procs=1, chunk_size_states=2)),
           ("dask", dict(chunk_size_states=2, n_procs=2, progress_bar=False))]


def cases(tier):
    out = []
    for algo in ("Downwind", "Iterative"):
        for e in ENGINES + ([("multiprocess", dict(chunk_size_states=1, n_procs=3)), ("threads", dict(chunk_size_states=1, n_procs=4)),
                             ("process", dict(chunk_size_states=1, n_procs=4))] if tier == "thorough" else []):
            for site in SITES:
                out.append(dict(algo=algo, eng=list(e), site=site))
    return out


_REF = {}


def reference(case):
    k = case["algo"]
    if k not in _REF:
        with W.engine("single"):
            a, m = setup(case)
            f = a.calc_farm()
            p = a.calc_points(f, PTS, point_models=["fp"])
        _REF[k] = W.obs(f), W.obs(p)
    return _REF[k]


def run(case, ctx):
    rf, rp = reference(case)
    eng = case["eng"]
    faults = ["load"] if case["site"] != "point" else []
    faults += [(i0, n) for i0 in (0, 1, 2, 3) for n in range(1, 60)]
    misses = set()
    for arm in faults:
        if arm != "load" and arm[0] in misses:
            continue
        if case.get("arm") and case["arm"] != (list(arm) if arm != "load" else arm):
            continue
        inj = explore(case, ctx, eng, arm, rf, rp)
        if not inj and arm != "load":
            misses.add(arm[0])   # no such call in this chunk: larger numbers neither


def explore(case, ctx, eng, arm, rf, rp):
    site = case["site"]
    tag = f"{case['algo']} {eng} {site} {arm}"
    with W.engine(eng[0], **eng[1]) as e:
        a, m = setup(case)
        m[site].arm = arm
        fr, stage, hit = None, "farm", None
        try:
            fr = a.calc_farm()
            stage = "points"
            a.calc_points(fr, PTS, point_models=["fp"])
            stage = None
        except Boom as ex:
            hit = ex
        except Exception as ex:
            ctx.fail(f"{case['algo']}|{site}|other-error", f"{tag}: injected error surfaced as {type(ex).__name__}: {ex}", arm=arm)
            return True
        ctx.evals += 1
        ctx.trans += 1
        if hit is None:
            # the requested call never happens
            return False
        want = "load" if arm == "load" else f"chunk {arm[0]} call {arm[1]}"
        if want not in str(hit):
            ctx.fail(f"{site}|message", f"{tag}: error message {hit}")
        ctx.nt(tag)
        ctx.state((tag, stage))
        ctx.counters[f"{site}:{stage}"] += 1
        m[site].arm = None
        m[site].__dict__.pop("cnt", None)
        if get_engine(error=False, default=False) is not e:
            ctx.fail(f"{site}|engine", f"{tag}: the engine is not set any more after the failed calculation")
            return True
        if a.running:
            ctx.fail(f"{site}|running", f"{tag}: the algorithm still claims to be running")
            return True
        # the same algorithm computes the right results now
        try:
            if stage == "points":
                p = W.obs(a.calc_points(fr, PTS, point_models=["fp"]))
                d = W.diff(rp, p, bcast=True)
                if d:
                    ctx.fail(f"{site}|points-after|{d[0]}", f"{tag}: point results after the failure: {d[1]}")
            f = a.calc_farm()
            d = W.diff(rf, W.obs(f), skip=("order_ssel",), bcast=True)
            if d:
                ctx.fail(f"{site}|farm-after|{d[0]}", f"{tag}: farm results after the failure: {d[1]}")
            p = W.obs(a.calc_points(f, PTS, point_models=["fp"]))
            d = W.diff(rp, p, bcast=True)
            if d:
                ctx.fail(f"{site}|points-after2|{d[0]}", f"{tag}: point results after the failure: {d[1]}")
        except Exception as ex:
            import traceback
            ctx.fail(f"{case['algo']}|{site}|unusable", f"{tag}: {stage} calculation failed; afterwards the algorithm cannot be used: {type(ex).__name__}: {ex}\n"
                     + traceback.format_exc()[-800:], arm=arm)
        return True
