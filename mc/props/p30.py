"""P30 area geometries obey the algebra of sets"""
import itertools, math
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from foxes.utils import geom2d as G

ID = "P30"
LEVEL = "model_checking"
ASSUMPTIONS = ["10 basic shapes (circles, polygons with integer and float corners, half planes along the axes and slanted), every expression with up to two operators (three in the thorough check), 17 x 17 lattice points off the boundaries",
               "reference: own membership tests (distance, crossing number, side of a line) combined by and, or and not"]
S = [("circle", (0.0, 0.0), 1.5), ("circle", (1.2, 0.4), 1.0), ("circle", (-2.0, 1.6), 0.45),
     ("poly", ((-1.0, -1.0), (2.0, -1.0), (2.0, 1.0), (0.5, 0.1), (-1.0, 1.5))), ("poly", ((-3, -3), (0, -3), (0, 0), (-3, 0))), ("poly", ((0.3, 2.6), (2.9, 0.2), (2.4, 2.7), (0.3, 2.6))),
     ("half", (0.4, 0.0), (1.0, 0.0)), ("half", (0.0, 1.1), (0.0, -2.0)), ("half", (-0.3, -0.2), (-1.0, 0.0)), ("half", (0.2, 0.1), (0.6, 0.8))]
NP = 17
LAT = np.array([[x, y] for x in np.linspace(-3.317, 3.283, NP) for y in np.linspace(-3.271, 3.337, NP)])


def make(i, how=0):
    s = S[i]
    if s[0] == "circle":
        return G.Circle(list(s[1]) if how else np.array(s[1]), s[2])
    if s[0] == "half":
        return G.HalfPlane(list(s[1]), np.array(s[2]))
    return G.ClosedPolygon(np.array(s[1]))


def inside(i, P):
    s = S[i]
    x, y = P[:, 0], P[:, 1]
    if s[0] == "circle":
        return np.hypot(x - s[1][0], y - s[1][1]) < s[2]
    if s[0] == "half":
        return (x - s[1][0]) * s[2][0] + (y - s[1][1]) * s[2][1] > 0
    c = list(s[1])
    if c[0] != c[-1]:
        c.append(c[0])
    r = np.zeros(len(P), dtype=bool)
    for (ax, ay), (bx, by) in zip(c[:-1], c[1:]):
        hit = (ay > y) != (by > y)
        with np.errstate(divide="ignore", invalid="ignore"):
            r ^= hit & (x < ax + (y - ay) * (bx - ax) / (by - ay))
    return r


def edge(i, P):
    """exact distance to the boundary line of a basic shape"""
    s = S[i]
    if s[0] == "circle":
        return np.abs(np.hypot(P[:, 0] - s[1][0], P[:, 1] - s[1][1]) - s[2])
    if s[0] == "half":
        n = np.array(s[2]) / np.hypot(*s[2])
        return np.abs((P - np.array(s[1])) @ n)
    c = list(s[1])
    if c[0] != c[-1]:
        c.append(c[0])
    best = np.full(len(P), np.inf)
    for a, b in zip(c[:-1], c[1:]):
        a, b = np.array(a, dtype=float), np.array(b, dtype=float)
        d = b - a
        if not d.any():
            continue
        t = np.clip(((P - a) @ d) / (d @ d), 0.0, 1.0)
        best = np.minimum(best, np.linalg.norm(P - a - t[:, None] * d, axis=1))
    return best


# an expression is ("s", i) or ("not", e) or ("or"|"and"|"sub", [e, ...], form)

def ev(e):
    """the geometry of the package"""
    if e[0] == "s":
        return make(e[1], e[1] % 2)
    if e[0] == "not":
        return ev(e[1]).inverse()
    g = [ev(q) for q in e[1]]
    if e[0] == "or":
        return {"+": lambda: g[0] + g[1] if len(g) == 2 else g[0] + g[1] + g[2], "list": lambda: g[0] + g[1:], "class": lambda: G.AreaUnion(g), "right": lambda: g[0] + (g[1] + g[2])}[e[2]]()
    if e[0] == "and":
        return G.AreaIntersection(g)
    return {"-": lambda: g[0] - g[1] if len(g) == 2 else g[0] - g[1] - g[2], "list": lambda: g[0] - g[1:], "right": lambda: g[0] - (g[1] + g[2])}[e[2]]()


def ref(e, P):
    if e[0] == "s":
        return inside(e[1], P)
    if e[0] == "not":
        return ~ref(e[1], P)
    r = [ref(q, P) for q in e[1]]
    if e[0] == "or":
        return np.any(r, axis=0)
    if e[0] == "and":
        return np.all(r, axis=0)
    return r[0] & ~np.any(r[1:], axis=0)


def show(e):
    if e[0] == "s":
        return f"s{e[1]}"
    if e[0] == "not":
        return f"not {show(e[1])}"
    return "(" + f" {e[0]}{'' if e[2] in ('+', '-') else '.' + e[2]} ".join(show(q) for q in e[1]) + ")"


def exprs(tier):
    s = [("s", i) for i in range(len(S))]
    lit = s + [("not", q) for q in s]
    out = list(lit) + [("not", ("not", q)) for q in s]
    two = []
    for a, b in itertools.product(lit, repeat=2):
        two += [("or", [a, b], "+"), ("and", [a, b], "class"), ("sub", [a, b], "-")]
    out += two
    out += [("or", [a], "class") for a in lit] + [("and", [a], "class") for a in lit] + [("sub", [a, b], "list") for a in lit for b in s] + [("or", [a, b], "list") for a in lit for b in s]
    k = 0
    for a, b, c in itertools.product(s, lit, lit):
        k += 1
        if tier == "quick" and k % 11:
            continue
        out += [("or", [a, b, c], f) for f in ("+", "list", "class", "right")] + [("and", [a, b, c], "class")] + [("sub", [a, b, c], f) for f in ("-", "list", "right")]
        out += [("or", [a, ("and", [b, c], "class")], "+"), ("and", [a, ("or", [b, c], "+")], "class"), ("sub", [("or", [a, b], "+"), c], "-"), ("not", ("or", [a, ("sub", [b, c], "-")], "+")), ("sub", [("and", [a, b], "class"), c], "-"),
                ("or", [("sub", [a, b], "-"), ("sub", [c, a], "-")], "+"), ("sub", [a, ("sub", [b, c], "-")], "-"), ("not", ("and", [a, ("not", b), c], "class"))]
    return out


N_BLOCK = 64


def cases(tier):
    n = len(exprs(tier))
    out = [dict(k="algebra", i=i, n=N_BLOCK) for i in range(0, n, N_BLOCK)]
    out += [dict(k="basic", i=i) for i in range(len(S))] + [dict(k="figure", i=i, form=q) for i in range(len(S)) for q in range(4)]
    return out


_E = {}
RING = np.array([[r * math.cos(t), r * math.sin(t)] for r in (0.35, 0.7, 0.995) for t in np.arange(0, 2 * math.pi, math.pi / 9)])


def run(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_algebra(case, ctx):
    if ctx.tier not in _E:
        _E[ctx.tier] = exprs(ctx.tier)
    far = np.array([[-60.0, 3.3], [71.0, -2.2], [4.4, 55.0], [-3.1, -81.0], [50.0, 47.0], [-44.0, -46.0]])
    P = np.concatenate([LAT, far])
    for e in _E[ctx.tier][case["i"]:case["i"] + case["n"]]:
        name = show(e)
        ctx.evals += 1
        try:
            g = ev(e)
            got = g.points_inside(P)
            lo, hi = np.array(g.p_min()), np.array(g.p_max())
            d = g.points_distance(P)
            d2, near = g.points_distance(P, return_nearest=True)
        except Exception as x:
            ctx.fail(f"crash|{e[0]}", f"{name}: {type(x).__name__}: {x}")
            continue
        want = ref(e, P)
        ctx.trans += len(P)
        if not np.array_equal(got, want):
            k = int(np.argmax(got != want))
            ctx.fail(f"inside|{e[0]}", f"{name}: point {P[k].tolist()} is said to be {'inside' if got[k] else 'outside'}")
            continue
        if want.any():
            q = P[want]
            if np.any(q < lo[None] - 1e-12) or np.any(q > hi[None] + 1e-12):
                ctx.fail(f"box|{e[0]}", f"{name}: the bounds {lo.tolist()} {hi.tolist()} do not contain the inner points {q[0].tolist()} ...")
                continue
        if np.any(np.isnan(d)) or np.any(d < 0) or not np.array_equal(d, d2) or np.any(np.isnan(near)):
            ctx.fail(f"distance|{e[0]}", f"{name}: distances {d[:5]}, with nearest points {d2[:5]}")
            continue
        # the nearest point is that far away, and nothing changes within that distance
        if not np.allclose(np.linalg.norm(near - P, axis=1), d, atol=1e-7):
            k = int(np.argmax(np.abs(np.linalg.norm(near - P, axis=1) - d)))
            ctx.fail(f"nearest|{e[0]}", f"{name}: point {P[k].tolist()}: distance {d[k]}, nearest point {near[k].tolist()}")
            continue
        disc = (P[:, None] + np.minimum(d, 1e3)[:, None, None] * RING[None]).reshape(-1, 2)
        w = ref(e, disc).reshape(len(P), -1)
        bad = np.any(w != want[:, None], axis=1)
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail(f"free|{e[0]}", f"{name}: point {P[k].tolist()} {'inside' if want[k] else 'outside'}: distance {d[k]}, but the boundary is closer")
            continue
        # exact where the region is a union seen from outside or an intersection seen from inside, of basic shapes
        base = [q[1] if q[0] == "s" else q[1][1] if q[0] == "not" and q[1][0] == "s" else None for q in (e[1] if e[0] in ("or", "and", "sub") else [e])]
        if None not in base:
            sel = ~want if e[0] == "or" else want if e[0] in ("and", "sub") else np.ones(len(P), dtype=bool)
            x = np.min([edge(i, P) for i in base], axis=0)
            if not np.allclose(d[sel], x[sel], atol=1e-9):
                k = np.flatnonzero(sel)[int(np.argmax(np.abs(d[sel] - x[sel])))]
                ctx.fail(f"exact|{e[0]}", f"{name}: point {P[k].tolist()}: distance {d[k]}, exact {x[k]}")
                continue
        ctx.state(name)
        ctx.nt(name)


def k_basic(case, ctx):
    """corners, centres and points on the boundary; single points; input left alone"""
    i = case["i"]
    s = S[i]
    g = make(i)
    if s[0] == "circle":
        P = np.array([s[1], [s[1][0] + s[2], s[1][1]], [s[1][0], s[1][1] - 3 * s[2]], s[1]])
    elif s[0] == "half":
        P = np.array([s[1], [s[1][0] + s[2][1], s[1][1] - s[2][0]], [0.0, 0.0]])
    else:
        c = np.array(s[1], dtype=float)
        P = np.concatenate([c, 0.5 * (c[1:] + c[:-1]), [c.mean(axis=0)]])
    P0 = P.copy()
    for pts in (P, P[:1], P[::-1], P.astype(int)):
        d, n = g.points_distance(pts, return_nearest=True)
        e = edge(i, pts.astype(float))
        ctx.evals += 1
        ctx.trans += len(pts)
        if not np.allclose(d, e, atol=1e-6) or not np.allclose(np.linalg.norm(n - pts, axis=1), e, atol=1e-6) or not np.allclose(edge(i, np.asarray(n, dtype=float)), 0.0, atol=1e-7):
            ctx.fail(f"basic|{s[0]}", f"{s}: points {pts.tolist()}: distances {d.tolist()} (exact {e.tolist()}), nearest points {n.tolist()}")
            return
        ctx.state((i, len(pts), str(pts.dtype), pts[0].tolist()))
    if not np.array_equal(P, P0):
        ctx.fail("basic|mutated", f"{s}")
    if s[0] == "poly":
        c = np.array(s[1], dtype=float)
        g = G.ClosedPolygon(c)
        a = g.points_inside(LAT)
        c += 100.0
        b = g.points_inside(LAT)
        if not np.array_equal(a, b) or not np.allclose(g.points_distance(LAT), edge(i, LAT)):
            ctx.fail("basic|alias", f"{s}: changing the array of corners afterwards changes the polygon")
        for q in (list(s[1]), [list(z) for z in s[1]]):
            try:
                if not np.array_equal(G.ClosedPolygon(np.array(q)).points_inside(LAT), inside(i, LAT)):
                    ctx.fail("basic|list", f"{s}")
            except Exception as x:
                ctx.fail("basic|list", f"{s}: {type(x).__name__}: {x}")
    lo, hi = g.p_min(), g.p_max()
    if s[0] == "circle":
        e = np.array(s[1]) - s[2], np.array(s[1]) + s[2]
    elif s[0] == "poly":
        e = np.min(s[1], axis=0), np.max(s[1], axis=0)
    else:
        n = s[2]
        e = (np.array([s[1][0] if n[0] > 0 and n[1] == 0 else -np.inf, s[1][1] if n[1] > 0 and n[0] == 0 else -np.inf]), np.array([s[1][0] if n[0] < 0 and n[1] == 0 else np.inf, s[1][1] if n[1] < 0 and n[0] == 0 else np.inf]))
    if not (np.allclose(lo, e[0]) and np.allclose(hi, e[1])):
        ctx.fail("basic|bounds", f"{s}: bounds {lo} {hi}, expected {e}")
    ctx.nt(i)


def k_figure(case, ctx):
    """what is painted is the set (or its distances), and the arguments are left alone"""
    i = case["i"]
    for j, mode in itertools.product((i, (i + 3) % len(S), (i + 5) % len(S)), ("inside_red", "outside_red", "dist", "dist_inside", "dist_outside")):
        e = ("s", i) if j == i else ("sub", [("s", i), ("s", j)], "-")
        g = ev(e)
        # resolution by axis, for both, or the default; limits given or those of the area
        form = case.get("form", 0)
        if form and e[0] != "s":
            continue
        if form == 2 and mode not in ("inside_red", "dist"):
            continue
        nx, ny = ((13, 11), (12, 12), (500, 500), (9, 17))[form]
        pars = (dict(Nx=13, Ny=11), dict(N=12), dict(), dict(Nx=9, Ny=17))[form]
        if form != 3:
            pars.update(p_min=np.array([-3.117, -2.733]), p_max=np.array([2.943, 3.319]))
        elif not (np.all(np.isfinite(g.p_min())) and np.all(np.isfinite(g.p_max()))):
            continue
        keep = {k: np.array(v) for k, v in pars.items()}
        fig, ax = plt.subplots()
        ctx.evals += 1
        try:
            g.add_to_figure(ax, fill_mode=mode, pars_distance=pars)
            q = [c for c in ax.collections if hasattr(c, "get_array") and c.get_array() is not None][0]
            z = np.ma.filled(np.ma.asarray(q.get_array(), dtype=float), np.nan).reshape(ny, nx)
        except Exception as x:
            ctx.fail("figure|crash", f"{show(e)}, {mode}: {type(x).__name__}: {x}")
            plt.close(fig)
            continue
        plt.close(fig)
        if set(pars) != set(keep) or any(not np.array_equal(pars[k], keep[k]) for k in keep):
            ctx.fail("figure|mutated", f"{show(e)}, {mode}: parameters {keep} changed to {pars}")
        lo, hi = keep.get("p_min", g.p_min()), keep.get("p_max", g.p_max())
        dl = hi - lo
        x, y = np.linspace(lo[0] - 0.05 * dl[0], hi[0] + 0.05 * dl[0], nx), np.linspace(lo[1] - 0.05 * dl[1], hi[1] + 0.05 * dl[1], ny)
        P = np.array([[a, b] for b in y for a in x])
        w = ref(e, P).reshape(ny, nx)
        ctx.trans += z.size
        vis = ~np.isnan(z)
        exp = {"inside_red": w, "outside_red": ~w, "dist": np.ones_like(w), "dist_inside": w, "dist_outside": ~w}[mode]
        if not np.array_equal(vis, exp):
            ctx.fail("figure|set", f"{show(e)}, {mode}: painted cells differ from the set")
        elif mode.startswith("dist"):
            d = ev(e).points_distance(P).reshape(ny, nx)
            if not np.allclose(z[vis], d[vis]):
                ctx.fail("figure|distance", f"{show(e)}, {mode}")
        ctx.state((show(e), mode))
    ctx.nt(("fig", i))
