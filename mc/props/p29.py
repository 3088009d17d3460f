"""P29 directions, circle overlaps, cubic roots and the regularised root are exact"""
import itertools, math
import numpy as np
from foxes.utils import wind_dir as W
import foxes.utils as U
from foxes.utils import two_circles, cubic_roots, sqrt_reg

ID = "P29"
LEVEL = "model_checking"
ASSUMPTIONS = ["wind directions in steps of 7.5 degrees and next to north, pairs of them within [0, 360], speeds in any broadcastable form, arrays of one to three dimensions and every axis; radii and distances on a lattice including touching, equal and nested circles; cubics from all triples of integer roots, single roots with complex pairs, and their multiples",
               "reference: math module scalar code; overlap area by Gauss-Legendre integration of chord lengths; roots the polynomial was made of"]
WD = sorted(set([7.5 * i for i in range(49)] + [1e-9, 359.9999999, 89.9999999, 180.0000001, 0.1, 359.9]))


def cases(tier):
    return [dict(k="conv", axis=a) for a in (0, 1, -1, 2, -2)] + [dict(k="pairs")] + [dict(k="circles", i=i) for i in range(7)] + [dict(k="roots", i=i) for i in range(4)] + [dict(k="sqrt")]


def run(case, ctx):
    globals()["k_" + case["k"]](case, ctx)


def k_conv(case, ctx):
    ax = case["axis"]
    base = np.array(WD)
    shapes = [(len(WD),), (11, 5), (5, 11), (2, 2), (5, 11, 1), (1, 2, 5)]
    for sh in shapes:
        nd = len(sh)
        if not -(nd + 1) <= ax <= nd:
            continue
        for off in range(0, len(WD), 7):
            wd = np.resize(np.roll(base, off), sh).astype(float)
            keep = wd.copy()
            speeds = [1.0, 0.0, 7.5, 12, np.full(sh, 3.0), 0.5 + np.arange(wd.size).reshape(sh) % 6, (0.5 + np.arange(wd.size).reshape(sh)[..., :1] % 6)]
            for q, ws in enumerate(speeds):
                ctx.evals += 1
                wsf = np.broadcast_to(np.asarray(ws, dtype=float), sh)
                x = np.array([math.sin(math.radians(a)) * s for a, s in zip(wd.ravel(), wsf.ravel())]).reshape(sh)
                y = np.array([math.cos(math.radians(a)) * s for a, s in zip(wd.ravel(), wsf.ravel())]).reshape(sh)
                exp = np.stack([x, y], axis=ax)
                try:
                    vec, uv = W.wd2wdvec(wd, ws, axis=ax), W.wd2uv(wd, ws, axis=ax)
                    if q == 0 and ax == -1:
                        if not (np.array_equal(vec, W.wd2wdvec(wd)) and np.array_equal(uv, W.wd2uv(wd))):
                            ctx.fail("conv|default", f"wd {sh}")
                except Exception as e:
                    ctx.fail("conv|crash", f"wd {sh}, speed {np.shape(ws)}, axis {ax}: {type(e).__name__}: {e}")
                    continue
                ctx.trans += wd.size
                if vec.shape != exp.shape or not np.allclose(vec, exp, atol=1e-12 * 12) or not np.allclose(uv, -exp, atol=1e-11):
                    ctx.fail("conv|vec", f"wd {sh}, speed {np.shape(ws)}, axis {ax}: wrong vectors")
                    continue
                if np.all(wsf > 0):
                    a, b = W.wdvec2wd(vec, axis=ax), W.uv2wd(uv, axis=ax)
                    for nm, r in (("wdvec2wd", a), ("uv2wd", b)):
                        dif = np.abs((r - wd + 180.0) % 360.0 - 180.0) if r.shape == wd.shape else None
                        if dif is None or np.any(dif > 1e-6) or np.any(r < 0) or np.any(r >= 360):
                            ctx.fail("conv|back", f"{nm}: wd {sh}, speed {np.shape(ws)}, axis {ax}: {np.ravel(r)[:4]} for {wd.ravel()[:4]}")
                            break
                if not np.array_equal(wd, keep):
                    ctx.fail("conv|mutated", f"wd {sh}")
                ctx.state((sh, off, q, ax))
    ctx.nt(ax)


def k_pairs(case, ctx):
    A, B = np.meshgrid(WD, WD, indexing="ij")
    exp = np.array([[min((b - a + k for k in (-360.0, 0.0, 360.0)), key=abs) for b in WD] for a in WD])
    for f in (lambda x: x, np.ravel, lambda x: x[None], lambda x: x[:, :, None], lambda x: x.T):
        a, b, e = f(A), f(B), f(exp)
        ka, kb = a.copy(), b.copy()
        d = W.delta_wd(a, b)
        ctx.evals += 1
        ctx.trans += d.size
        tie = np.abs(np.abs(e) - 180.0) < 1e-9
        if d.shape != e.shape or not np.allclose(np.where(tie, np.abs(d), d), np.where(tie, np.abs(e), e), atol=1e-9) or np.any(np.abs(d) > 180):
            ctx.fail("delta", f"shape {a.shape}")
        if not (np.array_equal(a, ka) and np.array_equal(b, kb)):
            ctx.fail("delta|mutated", "")
        if not np.allclose(np.where(tie, np.abs(d), d), np.where(tie, np.abs(W.delta_wd(b, a)), -W.delta_wd(b, a)), atol=1e-9):
            ctx.fail("delta|sign", "")
    ctx.nt("pairs")
    ctx.state("pairs")


RAD = (0.2, 0.5, 1.0, 1.3, 40.0, 50.0, 63.0)
XG, WG = np.polynomial.legendre.leggauss(400)


def overlap(r1, r2, d):
    """integral over x of the smaller of both half chords, cut where the circles meet"""
    lo, hi = max(-r1, d - r2), min(r1, d + r2)
    if hi <= lo:
        return 0.0
    cuts = [lo, hi]
    if d > 0:
        xc = (d * d + r1 * r1 - r2 * r2) / (2 * d)
        if lo < xc < hi:
            cuts = [lo, xc, hi]
    s = 0.0
    for a, b in zip(cuts[:-1], cuts[1:]):
        # substitution that removes the square root at the ends
        t = 0.5 * math.pi * XG
        x = 0.5 * (a + b) + 0.5 * (b - a) * np.sin(t)
        j = 0.5 * (b - a) * np.cos(t) * 0.5 * math.pi
        h = np.minimum(np.sqrt(np.maximum(r1 * r1 - x * x, 0)), np.sqrt(np.maximum(r2 * r2 - (x - d) ** 2, 0)))
        s += float(np.sum(WG * 2 * h * j))
    return s


def k_circles(case, ctx):
    r1 = RAD[case["i"]]
    rows = []
    for r2 in RAD:
        ds = sorted(set([0.0, abs(r1 - r2), r1 + r2, r1, r2, 2 * (r1 + r2), 1e-6 * r1] + [abs(r1 - r2) + f * (r1 + r2 - abs(r1 - r2)) for f in np.linspace(-0.3, 1.3, 33)] + [abs(r1 - r2) * (1 + 1e-9), (r1 + r2) * (1 - 1e-9)]))
        rows += [(r1, r2, d) for d in ds if d >= 0]
    R = np.array(rows)
    exp = np.array([overlap(*q) for q in rows])
    tot = np.pi * np.minimum(R[:, 0], R[:, 1]) ** 2
    def check(name, idx, shape):
        a = [R[idx, j].reshape(shape) for j in range(3)]
        keep = [x.copy() for x in a]
        ctx.evals += 1
        ctx.trans += len(idx)
        try:
            with np.errstate(all="ignore"):
                o = two_circles.calc_area(*a)
        except Exception as e:
            ctx.fail("circles|crash", f"{name}: {type(e).__name__}: {e}")
            return
        if any(not np.array_equal(x, k) for x, k in zip(a, keep)):
            ctx.fail("circles|mutated", name)
        err = np.abs(o.ravel() - exp[idx]) / tot[idx] if o.shape == shape else np.array([np.inf])
        if not np.all(err < 2e-6):
            k = int(np.nanargmax(np.where(np.isnan(err), np.inf, err)))
            ctx.fail("circles|area", f"{name}: r1, r2, d = {rows[idx[k]]}: area {o.ravel()[k]}, expected {exp[idx[k]]}")
        ctx.state((name, tuple(idx[:3]), shape))
    n = len(rows)
    check("all", np.arange(n), (n,))
    check("reversed", np.arange(n)[::-1], (n,))
    check("column", np.arange(n), (n, 1))
    check("cube", np.arange(n // 4 * 4), (2, n // 4, 2))
    for i in range(n):
        check("single", np.array([i]), (1,))
        check("pair", np.array([i, (i * 7 + 3) % n]), (1, 2))
    sw = two_circles.calc_area(R[:, 1], R[:, 0], R[:, 2])
    if not np.allclose(sw, exp, atol=0, rtol=0) and not np.all(np.abs(sw - exp) / tot < 2e-6):
        ctx.fail("circles|swap", "exchanging the circles changes the area")
    ctx.nt(r1)


def k_roots(case, ctx):
    v = (-4.0, -2.5, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0)
    polys = []
    if case["i"] == 0:
        for t in itertools.combinations_with_replacement(v, 3):
            polys.append((np.poly(t)[::-1], sorted(t)))
    elif case["i"] == 1:
        for r, re, im in itertools.product(v, v, (0.3, 1.0, 4.0)):
            polys.append((np.poly([r, complex(re, im), complex(re, -im)]).real[::-1], [r]))
    elif case["i"] == 2:
        for e in np.linspace(0.0, 16 / 27, 65):
            polys.append((np.array([-e, 4.0, -8.0, 4.0]), None))
        polys = [(c / 1.0, None) for c, _ in polys]
        polys = [(np.array([-27 * 0.5926 * k / 64 / 27 * 4 / 4, 4.0, -8.0, 4.0]), None) for k in range(0, 65)] + polys
    else:
        for c in itertools.product((-3.0, -1.0, 0.0, 1.0, 2.0), repeat=3):
            polys.append((np.array(list(c) + [1.0]), None))
    for scale, give in itertools.product((1.0, 4.0, -2.0, 0.25), (True, False)):
        if not give and (scale != 1.0 or case["i"] == 2):
            continue
        C = np.array([p[0] * scale for p in polys])
        ctx.evals += 1
        keep = C.copy()
        with np.errstate(all="ignore"):
            o = cubic_roots(C[:, 0], C[:, 1], C[:, 2], C[:, 3] if give else None)
        if not np.array_equal(C, keep):
            ctx.fail("roots|mutated", "")
        for k, (c, want) in enumerate(polys):
            got = sorted(o[k][~np.isnan(o[k])])
            ctx.trans += 1
            if want is None:
                q = np.roots(c[::-1])
                want = sorted(z.real for z in q if abs(z.imag) < 1e-6)
            ok = len(got) > 0 and all(min(abs(g - w) for w in want) < 2e-5 for g in got) and all(min(abs(g - w) for g in got) < 2e-5 for w in want)
            if not ok:
                ctx.fail(f"roots|{case['i']}", f"coefficients {(c * scale).tolist()}{'' if give else ' (leading one implied)'}: roots {got}, expected {want}")
                return
            ctx.state((case["i"], k, scale, give))
    ctx.nt(case["i"])


def k_sqrt(case, ctx):
    for x0 in (0.01, 0.001, 0.1, 0.5):
        x = np.concatenate([np.linspace(-5 * x0, 3 * x0, 401), np.linspace(3 * x0, 9.0, 77), [x0, x0 * (1 + 1e-12), x0 * (1 - 1e-12), 0.0]])
        y = sqrt_reg(x, x0) if x0 != 0.01 else sqrt_reg(x)
        ctx.evals += 1
        ctx.trans += len(x)
        up = x >= x0
        if not np.allclose(y[up], np.sqrt(x[up]), rtol=1e-14, atol=0):
            ctx.fail("sqrt|above", f"x0={x0}")
        if np.any(y <= 0) or np.any(y[~up] > math.sqrt(x0) * (1 + 1e-12)):
            ctx.fail("sqrt|range", f"x0={x0}")
        o = np.argsort(x, kind="stable")
        if np.any(np.diff(y[o]) < -1e-15):
            ctx.fail("sqrt|monotone", f"x0={x0}")
        h = 1e-6 * x0
        l, c, r = sqrt_reg(np.array([x0 - h, x0, x0 + h]), x0)
        if abs(c - l - (r - c)) > 1e-4 * (r - c):
            ctx.fail("sqrt|kink", f"x0={x0}")
        ctx.state(x0)
    ctx.nt("sqrt")
