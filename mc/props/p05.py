"""P05 thread-parallel runs give the same results under every interleaving"""
import itertools
import numpy as np
import foxes
from mc import worlds as W
from mc import sched as S
from mc.catalog import worlds, w, ST4, TSD

ID = "P05"
LEVEL = "model_checking"
ASSUMPTIONS = ["threads engine and xarray engine (dask thread pool) with two workers and 2-4 chunks; worker threads run under a controlled scheduler",
               "quick: one preemption at every step (return of a foxes function, or after a line that stores to an attribute or item), before and after submission of the other jobs; "
               "thorough: one preemption at every executed foxes line, and two preemptions at the coarser steps",
               "a single bytecode line is atomic (the steps inside numpy calls are not split)"]
LIM = 150
PTS = [[-200.0, 20.0, 90.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0], [600.0, 0.0, 70.0]]
YW = dict(wake_frame="yawed_k004", wakes=["Bastankhah2016_linear_k004"], models=["TA", "yaw", "yawm2yaw"],
          tmodels={"yaw": dict(cls="SetFarmVars", vars={"YAWM": [[20.0, -15.0, 0.0]] * 4}, pre_rotor=True)})


def all_worlds():
    d = {
        "base": w(wakes=["Bastankhah2014_linear_ka02", "CrespoHernandez_quadratic_ka02"], models=[["TA", "kTI_02"], ["TB", "kTI_02"], ["TA", "kTI_02"]]),
        "mirror": w(ground_models="ground_mirror", wakes=["Jensen_linear_k007"]),
        "yawed": w(**YW), "field": w(states=dict(kind="field", n=4)),
        "stream": w(wake_frame="streamlines_500"),
        "field_lazy": w(states=dict(kind="field", n=4, files=[2, 2], load_mode="lazy")),
        "turbo_ix": w(wakes=["TurbOParkIX_linear_k004_dx50", "IECTI2019_max"], xy=[[0.0, 0.0], [460.0, 35.0]]),
        "msel": worlds()["turb:msel"], "sector": worlds()["turb:sector"], "setvars": worlds()["turb:setvars"], "moving": worlds()["turb:moving"], "thrust": worlds()["turb:thrust"],
        "lookup": worlds()["turb:lookup"], "tfactors": worlds()["turb:tfactors"], "profiles": worlds()["st:profiles"], "mh": worlds()["st:multiheight"], "mhnc": worlds()["st:multiheightnc"],
        "it": w(algo="Iterative", wakes=["Rathmann", "Jensen_linear_k007"], algo_kw=dict(max_it=3)), "product": w(wakes=["Jensen_product_k007"]),
    }
    return d


def cases(tier):
    out = []
    for n in all_worlds():
        for op in ("farm", "points", "points4"):
            if tier == "quick" and (n == "it" and op != "farm" or op == "points" and n not in ("base", "mirror", "yawed", "field", "stream")):
                continue
            for part in range(2 if tier == "quick" else 8):
                out.append(dict(world=n, op=op, part=part, fine=False))
            if tier == "thorough":
                for part in range(16):
                    out.append(dict(world=n, op=op, part=part, fine=True))
            # the xarray engine runs its chunks in dask's threads
            if op != "points" or tier == "thorough":
                for part in range(1 if tier == "quick" else 8):
                    out.append(dict(world=n, op=op, part=part, fine=False, eng="xarray"))
    return out


def run(case, ctx):
    th = ctx.tier == "thorough"
    parts = (16 if case["fine"] else 8) if th else (1 if case.get("eng") else 2)
    spec = all_worlds()[case["world"]]
    op = case["op"]
    with W.engine("single"):
        a0 = W.build(spec)
        fr0 = a0.calc_farm()
        exp = W.obs(fr0 if op == "farm" else a0.calc_points(fr0, np.array(PTS)))
        n = a0.n_states
    algo = W.build(spec)
    with W.engine("single"):
        fr = algo.calc_farm()
    eng = case.get("eng", "threads")
    cs = dict(chunk_size_states=(n + 1) // 2) if op == "farm" else (dict(chunk_size_states=n, chunk_size_points=2) if op == "points" else dict(chunk_size_states=(n + 1) // 2, chunk_size_points=2))

    def execute(sch):
        with S.control(sch):
            with W.engine(eng, n_procs=2, **cs, **(dict(progress_bar=False) if eng == "xarray" else {})):
                return W.obs(algo.calc_farm() if op == "farm" else algo.calc_points(fr, np.array(PTS)))

    pilot = S.Scheduler(fine=case["fine"], full=True)
    execute(pilot)
    if not getattr(pilot, "pools", 0) or not pilot.jobs:
        ctx.counters["no_thread_pool"] += 1
        N = 0
    else:
        N = max(j.steps for j in pilot.jobs)
    # jobs that run code of foxes, in order of submission (dask submits many others)
    work = [k for k, j in enumerate(pilot.jobs) if j.steps > N / 20]
    # the iterative algorithm submits new jobs in every iteration: the second iteration has mutual influence
    base = [0] + ([2] if len(work) > 2 and spec.get("algo") == "Iterative" else [])
    scheds = []
    for i in base if N else []:
        b = work[i]
        c = work[i + 1] if len(work) > i + 1 else b + 1
        Nb = pilot.jobs[b].steps
        pts = range(1, Nb + 1)
        if case["fine"] and Nb > 4000:
            pts = range(1, Nb + 1, 1 + Nb // 4000)
            ctx.capped = True
        for s in pts:
            scheds.append((dict(), [(b, s), (c, None)]))
            if not case["fine"] and (op != "farm" or s % 2):
                scheds.append(({b: [(b, s)]}, [(c, None)]))
            if not case["fine"] and s % 3 == 0:
                scheds.append((dict(), [(b, 1), (c, s), (b, None)]))
        if not case["fine"]:
            scheds += [({b: [(b, None)]}, []), (dict(), [(b, 0), (c, None)])]
            if th:
                g = sorted({max(1, round(Nb * q / 40)) for q in range(1, 41)})
                scheds += [(dict(), [(b, s), (c, t), (b, None)]) for s in g for t in g]
    lim = LIM if eng == "threads" else LIM // (25 if spec.get("algo") == "Iterative" else 3)
    if not th and len(scheds) > lim:
        # keep the quick check short: every k-th preemption point; the thorough check takes all of them
        scheds = scheds[::1 + len(scheds) // lim]
        ctx.counters["thinned"] += 1
    for k, (early, late) in enumerate(scheds):
        if k % parts != case["part"]:
            continue
        sch = S.Scheduler(early, late, fine=case["fine"])
        try:
            got = execute(sch)
        except Exception as e:
            ctx.fail(f"exc:{case['world']}|{op}|{type(e).__name__}", f"{type(e).__name__}: {e} in world {case['world']}, {op}, schedule {early} {late}, switches {sch.log}")
            continue
        ctx.evals += 1
        ctx.trans += sum(j.steps for j in sch.jobs)
        ctx.state((case["world"], op, tuple(sch.log)))
        if any(x[2] != "end" for x in sch.log):
            ctx.nt((case["world"], op, tuple(sch.log)))
        d = W.diff(exp, got, bcast=True, skip=("order_ssel",))
        if d is not None:
            ctx.fail(f"race:{case['world']}|{op}|{d[0]}", f"threads differ from single chunk: {d[1]}; world {case['world']}, {op}, schedule {early} {late}, switches {sch.log}")
            break
