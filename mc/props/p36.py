"""P36 selected states give the results of these states"""
import itertools
import numpy as np
import foxes.variables as FV
import foxes.constants as FC
from mc import worlds as W
from mc.catalog import worlds, w

ID = "P36"
LEVEL = "model_checking"
ASSUMPTIONS = ["point calculations of every world of the catalogue: all non-empty subsets of at most 4 states in order, pairs and triples also reordered; by position and by label; chunks of 1, 2, 3 states and whole",
               "reference: the same states of the point calculation with all states; points common to all states and different points in every state"]
PTS = np.array([[-200.0, 20.0, 90.0], [300.0, 15.0, 85.0], [700.0, 30.0, 80.0], [1300.0, -60.0, 100.0], [40.0, 420.0, 95.0], [465.0, -260.0, 90.0]])
TOL = 1e-9


def cases(tier):
    ch = (None, 1, 2) if tier == "quick" else (None, 1, 2, 3)
    out = [dict(world=n, cs=c) for n in worlds() for c in ch]
    return out


def sels(n, tier):
    n = min(n, 4 if tier == "quick" else 5)
    out = [list(s) for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
    out += [list(s) for k in (2, 3) for s in itertools.permutations(range(n), k) if list(s) != sorted(s) and (tier != "quick" or k == 2 or s[0] == 2)]
    return out


def run(case, ctx):
    name = case["world"]
    spec = worlds()[name]
    dyn = name.startswith("dyn:")
    with W.engine("single") if case["cs"] is None else W.engine("numpy", n_procs=1, chunk_size_states=case["cs"], chunk_size_points=4):
        a = W.build(spec)
        r = a.calc_farm()
        ns = r.sizes[FC.STATE]
        lab = r[FC.STATE].to_numpy()
        per = np.broadcast_to(PTS[None], (ns,) + PTS.shape) + 35.0 * np.arange(ns)[:, None, None] * np.array([1.0, -0.6, 0.1])
        told = set()
        kinds = {"same": lambda s: np.broadcast_to(PTS[None], (len(s),) + PTS.shape).copy(), "per": lambda s: per[s].copy()}
        for kind, pts in kinds.items():
            for amb in (False, True):
                full = a.calc_points(r, pts(list(range(ns))), ambient=amb)
                ref = {v: full[v].to_numpy() for v in full.data_vars if full[v].dims[0] == FC.STATE}
                for s in sels(ns, ctx.tier):
                    for how in ("isel", "sel"):
                        if how == "sel" and (len(set(lab.tolist())) < ns or (ctx.tier == "quick" and kind == "per" and amb)):
                            continue
                        ctx.evals += 1
                        key = f"sel:{name}:{how}"
                        try:
                            got = a.calc_points(r, pts(s), ambient=amb, **({"states_isel": s} if how == "isel" else {"states_sel": [lab[i] for i in s]}))
                        except Exception as e:
                            ctx.fail(key, f"states {s}: {type(e).__name__}: {e}")
                            return
                        ctx.nt((name, len(s)))
                        ctx.state((name, case["cs"], kind, amb, tuple(s), how))
                        for v, d in ref.items():
                            ctx.trans += d[s].size
                            if v not in got or got[v].shape != d[s].shape:
                                ctx.fail(key, f"states {s}: {v} of the shape {got[v].shape if v in got else None}, expected {d[s].shape}")
                                return
                            if v == FV.WEIGHT:
                                continue
                            g = got[v].to_numpy()
                            if d.dtype.kind not in "fiu":
                                continue
                            bad = ~((np.abs(g - d[s]) <= TOL * (1 + np.abs(d[s]))) | (np.isnan(g) & np.isnan(d[s])))
                            if bad.any() and dyn and not amb and not v.startswith("AMB_") and (s != list(range(len(s))) or (name == "dyn:dyn_wakes" and case["cs"] and len(s) < ns)):
                                # states whose history is not selected, or other chunk boundaries
                                # than in the farm calculation: findings, see known_findings.txt
                                key = f"history:{name}:{how}" if s != list(range(len(s))) else f"chunks:{name}:{how}"
                                if key not in told:
                                    told.add(key)
                                    i = tuple(int(q) for q in np.argwhere(bad)[0])
                                    ctx.fail(key, f"states {s} of {ns}, {v}: {g[i]} at point {i}, in the calculation with all states {d[s][i]}")
                                continue
                            if bad.any():
                                i = tuple(int(q) for q in np.argwhere(bad)[0])
                                ctx.fail(key, f"states {s} of {ns} ({'ambient, ' if amb else ''}{kind}), {v}: {g[i]} at point {i}, in the calculation with all states {d[s][i]}")
                                return
                        if FC.STATE in got.coords and list(got[FC.STATE].to_numpy()) != [lab[i] for i in s]:
                            ctx.fail(key, f"states {s}: labels {got[FC.STATE].to_numpy()}")
                            return
