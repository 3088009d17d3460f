"""P22 turbine models act on exactly the states and turbines they are given to, in the given order"""
import itertools
import numpy as np
import foxes.variables as FV
from foxes.core import TurbineModel, Turbine, WindFarm
from foxes.core.farm_data_model import FarmDataModelList
from mc import worlds as W
from mc.catalog import w

ID = "P22"
LEVEL = "model_checking"
ASSUMPTIONS = ["2-3 turbines, 2 states; two pre-rotor and two post-rotor trace models, model lists, repeated models, all model sequences and selections",
               "the trace models record the sequence in which they act on every state and turbine; post-rotor sequences are recorded from a resetting first model on"]


class Trace(TurbineModel):
    """appends a digit to the trace variable"""

    def __init__(self, k, var="V", pre_rotor=False):
        super().__init__(pre_rotor=pre_rotor)
        self.k, self.var = k, var

    def output_farm_vars(self, algo):
        return [self.var]

    def calculate(self, algo, mdata, fdata, st_sel):
        v = fdata[self.var]
        if self.k == 0:
            v[st_sel] = 1.0
        else:
            q = np.where(np.isnan(v[st_sel]), 1.0, v[st_sel])
            v[st_sel] = 10.0 * q + self.k
        return {self.var: v}


PRE = [(), ("p",), ("q",), ("p", "q"), ("q", "p"), ("p", "p")]
POST = [(), ("A",), ("B",), ("A", "B"), ("B", "A"), ("A", "B", "A"), ("A", "A"), ("L",), ("L", "A"), ("A", "L"), ("M", "L")]
# expansions of lists; the inner models have their own names
LISTS = {"L": (3, 4), "M": (5,)}
DIG = {"p": 1, "q": 2, "A": 1, "B": 2}
MASKS = [None, [1, 0], [0, 1], [0, 0]]


def mbook():
    mb = W.mbook()
    mb.turbine_models["p"] = Trace(1, "U", True)
    mb.turbine_models["q"] = Trace(2, "U", True)
    mb.turbine_models["Z"] = Trace(0)
    mb.turbine_models["A"] = Trace(1)
    mb.turbine_models["B"] = Trace(2)
    for n, ks in LISTS.items():
        mb.turbine_models[n] = FarmDataModelList([Trace(k) for k in ks])
    return mb


def expected(seq, masks, var, s):
    """trace digits of state s"""
    out = np.nan if var == "U" else None
    for m, k in zip(seq, masks):
        if k is not None and not k[s]:
            continue
        if m in ("p", "q"):
            if var == "U":
                out = 10.0 * (1.0 if np.isnan(out) else out) + DIG[m]
        elif var == "V" and m == "Z":
            out = 1.0
        elif var == "V" and m not in ("TA", "TB"):
            for d in LISTS.get(m, (DIG.get(m),)):
                out = 10.0 * out + d
    return out


def conflict(seqs):
    """True if no common order of the models exists (each at most once per turbine)"""
    names = {m for q in seqs for m in q}
    edge = {(a, b) for q in seqs for a, b in zip(q[:-1], q[1:])}
    left = set(names)
    while left:
        free = [m for m in left if not any((a, m) in edge for a in left)]
        if not free:
            return True
        left -= set(free)
    return False


def full(pre, post, tpos, t="TA"):
    post = list(post)
    post.insert(min(tpos, len(post)), t)
    return list(pre) + ["Z"] + post


def cases(tier):
    out = [dict(kind="pairs", pre=i, post=j) for i in range(len(PRE)) for j in range(len(POST))]
    out += [dict(kind="masks", pre=i, post=j) for i in range(len(PRE)) for j in range(len(POST))]
    out += [dict(kind="three"), dict(kind="api"), dict(kind="pars")]
    return out


def check(ctx, seqs, masks, key, made=None, algo="Downwind", chunk=None):
    n = len(seqs)
    f = made
    if f is None:
        f = WindFarm(name="f")
        for i, q in enumerate(seqs):
            f.add_turbine(Turbine(xy=np.array([500.0 * i, 10.0 * i]), turbine_models=list(q), name=f"T{i}",
                                  models_state_sel=None if masks[i] is None else [None if m is None else np.array(m, dtype=bool) for m in masks[i]]), verbosity=0)
    spec = w(farm_obj=f, wakes=["Jensen_linear_k007"], algo=algo, states=dict(kind="table", ws=[9.0, 8.0], wd=[270.0, 80.0]))
    ctx.evals += 1
    once = all(len(set(q)) == len(q) for q in seqs)
    ok = not conflict([tuple(m for m in q) for q in seqs]) if once else None
    try:
        with W.engine(*(("numpy",) if chunk else ("single",)), **({"chunk_size_states": chunk} if chunk else {})):
            fr = W.build(dict(spec, mbook=mbook())).calc_farm()
    except ValueError as e:
        if "Could not find turbine model order" not in str(e):
            raise
        if ok:
            ctx.fail(key + "|refused", f"models {seqs}: no order found, although one exists")
        ctx.counters["refused"] += 1
        return
    if ok is False and not once:
        pass
    for i, q in enumerate(seqs):
        mk = masks[i] or [None] * len(q)
        for s in range(2):
            for v in ("U", "V"):
                e = expected(q, mk, v, s)
                x = fr[v].to_numpy()[s, i] if v in fr else np.nan
                ctx.trans += 1
                if e is None:
                    continue
                if not (x == e or np.isnan(x) and np.isnan(e)):
                    ctx.fail(f"{key}|{v}", f"models {seqs}, selections {masks}: turbine {i} state {s}: trace {x}, expected {e}")
    ctx.state(W.digest(W.obs(fr)))
    ctx.nt((tuple(map(tuple, seqs)), str(masks)))


def run(case, ctx):
    k = case["kind"]
    if k == "pairs":
        a, b = PRE[case["pre"]], POST[case["post"]]
        for c in PRE:
            for d in POST:
                for ta, tb in ((0, 0), (1, 2)) if ctx.tier != "quick" else ((0, 2),):
                    check(ctx, [full(a, b, ta), full(c, d, tb, "TB")], [None, None], "pairs")
    elif k == "masks":
        a, b = PRE[case["pre"]], POST[case["post"]]
        seq = full(a, b, 1)
        n = len(seq)
        free = [i for i in range(n) if seq[i] not in ("Z", "TA", "TB")]
        others = [full(("p",), ("A", "B"), 0, "TB"), full(("q",), ("L",), 0, "TA"), full((), ("B",), 0, "TA")]
        for ms in itertools.product(MASKS if ctx.tier != "quick" else MASKS[:3], repeat=len(free)):
            mk = [None] * n
            for i, m in zip(free, ms):
                mk[i] = m
            o = others[0]
            check(ctx, [seq, o], [mk, None], "masks")
            if sum(m is not None for m in ms) in (1, len(free)):
                for o in others[1:]:
                    check(ctx, [o, seq], [[None] * (len(o) - 1) + [[0, 1]], mk], "masks2", chunk=1)
                check(ctx, [seq, seq], [mk, None], "masks3", algo="Iterative")
    elif k == "three":
        for p in itertools.product(POST[:6] + POST[7:8], repeat=3):
            check(ctx, [full(("p",) if i else ("q", "p"), q, i) for i, q in enumerate(p)], [None] * 3, "three")
        for p in itertools.permutations("ABL", 3):
            for q in itertools.permutations("ABL", 2):
                for r in ("A", "B", "L"):
                    check(ctx, [full((), p, 0), full((), q, 0), full((), (r,), 0)], [None] * 3, "three3")
    elif k == "api":
        # turbines built step by step, from shared and default lists
        for shared in (False, True):
            for ops in itertools.product([None, "add", "ins"], repeat=2):
                f = WindFarm(name="f")
                base = ["Z", "TA"]
                seqs, masks = [], []
                for i, op in enumerate(ops):
                    if shared:
                        t = Turbine(xy=np.array([500.0 * i, 0.0]), turbine_models=base)
                    else:
                        t = Turbine(xy=np.array([500.0 * i, 0.0]))
                        t.add_model("Z")
                        t.add_model("TA")
                    f.add_turbine(t, verbosity=0)
                    seqs.append(["Z", "TA"])
                    masks.append([None, None])
                for i, op in enumerate(ops):
                    if op == "add":
                        f.turbines[i].add_model("A", np.array([True, False]))
                        seqs[i].append("A")
                        masks[i].append([1, 0])
                    elif op == "ins":
                        f.turbines[i].insert_model(1, "B", np.array([False, True]))
                        seqs[i].insert(1, "B")
                        masks[i].insert(1, [0, 1])
                for i, t in enumerate(f.turbines):
                    if list(t.models) != seqs[i] or t.index != i or t.name != f"T{i}":
                        ctx.fail("api|models", f"ops {ops}, shared list {shared}: turbine {i} has models {t.models}, expected {seqs[i]}")
                if shared and base != ["Z", "TA"]:
                    ctx.fail("api|list", f"ops {ops}: the list given by the user was changed to {base}")
                if all(list(t.models) == q for t, q in zip(f.turbines, seqs)):
                    check(ctx, seqs, masks, "api", made=f)
    else:
        # two farm calculations do not share controller state: a new model book gives a new controller
        from foxes.core import FarmController
        from foxes.models.farm_controllers import BasicFarmController
        a, b = BasicFarmController(), BasicFarmController()
        a.set_pars("x", {}, {}, {})
        ctx.evals += 1
        ctx.trans += 1
        ctx.state("pars")
        ctx.nt("pars")
        if "x" in b.pars:
            ctx.fail("pars|shared", "model parameters set for one farm controller appear in another one")
