"""P08 results do not depend on what was computed before with the same objects"""
import itertools, copy
import numpy as np
import foxes.variables as FV
from foxes.core import get_engine
from mc import worlds as W
from mc.catalog import worlds, w, TSD, ST4

ID = "P08"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "all sequences of the listed operations up to length 3 (quick) / 4 (thorough) for the core worlds, length 2 (3) for one world of every kind",
    "each step's result is compared with the same operation on freshly built objects",
]
P1 = [[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0]]
P2 = [[600.0, 0.0, 70.0], [250.0, 10.0, 110.0]]

CORE = {
    "dw": w(),
    "it": w(algo="Iterative"),
    "dw_ti": w(wakes=["Bastankhah2014_linear_ka02", "CrespoHernandez_quadratic_ka02"], models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]]),
}
OPS = ["farm", "farm_amb", "farm_out", "farm_nofin", "points", "points2", "points_isel", "points_amb", "fin", "fin_mem",
       "other_dw", "other_it", "points_given"]


def all_worlds():
    d = dict(CORE)
    for k, s in worlds().items():
        d["cat:" + k] = s
    return d


def cases(tier):
    out = []
    for name in CORE:
        for a in OPS:
            for b in OPS:
                out.append(dict(world=name, prefix=[a, b], depth=3 if tier == "quick" else 4))
    for name in all_worlds():
        if name.startswith("cat:"):
            out.append(dict(world=name, prefix=[], depth=2 if tier == "quick" else 3))
    return out


class Sys:
    """the objects under test: one algorithm, plus what it was built from"""

    def __init__(self, spec):
        self.spec = spec
        self.mb = W.mbook(spec)
        self.st = W.states(spec["states"])
        self.farm = W.farm(spec)
        self.algo = self.make(spec.get("algo", "Downwind"))
        self.fr = None

    def make(self, kind):
        own = {} if kind == self.spec.get("algo", "Downwind") else dict(urelax=None, algo_kw=None)
        return W.build(self.spec, mbook=self.mb, states=self.st, algo=kind, farm_obj=self.farm, **own)

    def do(self, op):
        a = self.algo
        if op == "farm":
            self.fr = a.calc_farm()
            return self.fr
        if op == "farm_nofin":
            self.fr = a.calc_farm(finalize=False)
            return self.fr
        if op == "farm_amb":
            return a.calc_farm(ambient=True)
        if op == "farm_out":
            return a.calc_farm(outputs=[FV.REWS, FV.P, FV.WEIGHT])
        if op in ("points", "points2", "points_isel", "points_amb"):
            fr = self.fr
            if fr is None:
                fr = self.fr = a.calc_farm()
            if op == "points":
                return a.calc_points(fr, np.array(P1))
            if op == "points2":
                return a.calc_points(fr, np.array(P2))
            if op == "points_isel":
                return a.calc_points(fr, np.array(P1), states_isel=[1, 2])
            return a.calc_points(fr, np.array(P2), ambient=True)
        if op == "points_given":
            # farm results of other, equal objects
            k = id(self.spec)
            if k not in _GIVEN:
                _GIVEN[k] = (self.spec, Sys(self.spec).do("farm"))
            return a.calc_points(_GIVEN[k][1].copy(deep=True), np.array(P1))
        if op == "fin":
            a.finalize()
            return None
        if op == "fin_mem":
            a.finalize(clear_mem=True)
            return None
        if op in ("other_dw", "other_it"):
            # another algorithm that shares model book, states and farm
            if a.initialized:
                a.finalize()
            b = self.make("Downwind" if op == "other_dw" else "Iterative")
            return b.calc_farm()
        raise KeyError(op)


SKIP = ("order_ssel",)
_REF = {}
_GIVEN = {}


def ref(name, spec, op):
    if (name, op) not in _REF:
        with W.engine("single"):
            r = Sys(spec).do("points" if op == "points_given" else op)
        _REF[name, op] = None if r is None else W.obs(r)
    return _REF[name, op]


def usable(name, spec, op):
    s = spec["states"]
    if name.startswith("cat:dyn") or name.startswith("cat:ind") or name == "cat:it:farmo":
        # these wake frames and induction models are for the iterative algorithm; selecting states cuts the history
        return op not in ("points_isel", "other_dw") and not (op == "points_given" and name.startswith("cat:dyn"))
    if s["kind"] in ("scan", "single", "wrg", "tab") and op == "points_isel":
        return False
    if s["kind"] in ("opf",) and op == "points_isel":
        return False
    if op == "other_it" and name == "cat:turb:null":
        # documented: the null turbine type does not support the iterative algorithm's cut-in modification
        return False
    if op == "other_it" and spec.get("wake_frame") in ("timelines",):
        return False
    return True


def run(case, ctx):
    name = case["world"]
    spec = all_worlds()[name]
    ops = [o for o in OPS if usable(name, spec, o)]
    if name.startswith("cat:"):
        drop = ("fin_mem", "points2") + (("farm_amb", "points_isel") if ctx.tier == "quick" else ())
        ops = [o for o in ops if o not in drop]
    pre = case["prefix"]
    for rest in ([case["rest"]] if case.get("rest") is not None else itertools.product(ops, repeat=case["depth"] - len(pre))):
        seq = pre + list(rest)
        for o in seq:
            ref(name, spec, o)
        with W.engine("single"):
            S = Sys(spec)
            for i, o in enumerate(seq):
                r = S.do(o)
                ctx.trans += 1
                ctx.state((name, tuple(seq[:i + 1])))
                if i < len(pre) - 1 and i < len(seq) - 1:
                    continue
                e = ref(name, spec, o)
                if r is None:
                    continue
                d = W.diff(e, W.obs(r), skip=SKIP)
                if d:
                    ctx.fail(f"{name}|{o}|{d[0]}", f"{name}, sequence {seq[:i + 1]}: last result differs from a fresh calculation: {d[1]}", seq=seq[:i + 1])
                    break
            ctx.evals += 1
