"""P14 running state by state gives the same results as running all states together"""
import itertools
import numpy as np
from mc import worlds as W
from mc.catalog import worlds, w, ST4, TS4
from foxes.algorithms.sequential.models import SequentialPlugin

ID = "P14"
LEVEL = "model_checking"
ASSUMPTIONS = ["3 turbines, 4 states, every kind of steady model; sequential runs with and without points and plugins, iterated twice, with interleaved point calculations",
               "compared with the iterative algorithm (one calculation of all states), rtol 1e-5"]
PTS = np.array([[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0]])
SKIP = ("order_ssel",)


def all_worlds():
    d = {k: v for k, v in worlds().items() if not k.startswith("dyn:") and k not in ("turb:null",) and not v.get("urelax")}
    d["x:one"] = w(xy=[[0.0, 0.0]])
    return d


def cases(tier):
    return [dict(world=k, mode=m) for k in all_worlds() for m in ("farm", "points", "twice", "outputs", "ambient")]


class Log(SequentialPlugin):
    def __init__(self):
        super().__init__()
        self.log = []

    def initialize(self, algo):
        super().initialize(algo)
        self.log.append("i")

    def update(self, algo, fres, pres=None):
        super().update(algo, fres, pres)
        self.log.append((algo.index, algo.counter, fres, pres, algo.cur_farm_results))

    def finalize(self, algo):
        super().finalize(algo)
        self.log.append("f")


def row(o, i):
    return {v: (d, np.take(x, [i], axis=d.index("state")) if "state" in d else x) for v, (d, x) in o.items()}


def run(case, ctx):
    name, mode = case["world"], case["mode"]
    spec = all_worlds()[name]
    amb = mode == "ambient"
    with W.engine("single"):
        a = W.build(dict(spec, algo="Iterative"))
        fr = a.calc_farm(ambient=amb)
        ref = W.obs(fr)
        refp = W.obs(a.calc_points(fr, PTS, ambient=amb))
        idx = list(a.states.index() if a.states.index() is not None else range(a.n_states))
        n = a.n_states
        kw = dict(spec.get("algo_kw") or {})
        pl = Log()
        if mode in ("points", "ambient", "twice"):
            kw["points"] = PTS
        if mode == "ambient":
            kw["ambient"] = True
        if mode != "farm":
            kw["plugins"] = [pl]
        if mode == "outputs":
            kw["outputs"] = ["REWS", "P"]
        s = W.build(dict(spec, algo="Sequential", algo_kw=kw))
        ctx.evals += 1

        def cmp(tag, x, y, what, **k):
            d = W.diff(x, y, rtol=1e-5, atol=1e-6, bcast=True, skip=SKIP, **k)
            if d is not None:
                ctx.fail(f"{name}|{mode}|{tag}|{d[0]}", f"{name}, {mode}: {what}: {d[1]}")
        for rep in range(2 if mode == "twice" else 1):
            k = 0
            for r in s:
                f, p = r if "points" in kw else (r, None)
                what = f"state {k} of the sequential run (pass {rep})"
                if not s.iterating or s.counter != k and mode != "farm" and not (s.counter in (k, k + 1)):
                    ctx.fail(f"{name}|{mode}|counter", f"{name}: counter {s.counter} at step {k}")
                x = W.obs(f)
                cmp("yield", row(ref, k), x, what, only=set(ref) & set(x))
                if p is not None:
                    x = W.obs(p)
                    cmp("yieldp", row(refp, k), x, what + ", points", only=set(refp) & set(x))
                ctx.trans += 1
                k += 1
            if k != n:
                ctx.fail(f"{name}|{mode}|n", f"{name}: {k} steps for {n} states")
            if s.iterating:
                ctx.fail(f"{name}|{mode}|iterating", f"{name}: still iterating after the loop")
            x = W.obs(s.farm_results)
            cmp("final", {v: q for v, q in ref.items() if v in x}, {v: q for v, q in x.items() if v in ref}, "collected farm results")
            miss = [v for v in ref if v not in x and v not in ("turbine", "state", "order_ssel", "WEIGHT", "weight")]
            if miss and mode != "outputs":
                ctx.fail(f"{name}|{mode}|missing", f"{name}: collected farm results lack {miss}")
            if "points" in kw:
                x = W.obs(s.point_results)
                cmp("finalp", refp, x, "collected point results", only=set(refp) & set(x))
            if mode != "farm":
                ev = pl.log[rep * (n + 2):(rep + 1) * (n + 2)]
                if len(ev) != n + 2 or ev[0] != "i" or ev[-1] != "f" or [e[1] for e in ev[1:-1]] != list(range(n)) or [e[0] for e in ev[1:-1]] != idx:
                    ctx.fail(f"{name}|{mode}|plugin", f"{name}: plugin events {[e if isinstance(e, str) else e[:2] for e in ev]}, states {idx}")
                else:
                    for e in ev[1:-1]:
                        cmp("plugcur", {v: q for v, q in row(ref, e[1]).items() if v in W.obs(e[4])}, {v: q for v, q in W.obs(e[4]).items() if v in ref}, f"current farm results at state {e[1]}")
        ctx.state((name, mode, W.digest(W.obs(s.farm_results))))
        ctx.nt((name, mode))
