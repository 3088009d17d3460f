"""Plain-Python reference simulation of a wind farm in a homogeneous or sheared background.

It works turbine by turbine, in downwind order, one point at a time, with the textbook formulas, and shares no code
with foxes: no arrays over states or targets, no chunks, no model objects. It knows the wake models, superpositions,
partial wakes, rotor averages and turbine models listed below.

reference(spec, ...) -> per state dict of per-turbine values, and a function for point values.
"""
import math


# ---- elementary pieces ----------------------------------------------------

def interp(x, xs, ys):
    """piecewise linear, zero outside"""
    if x < xs[0] or x > xs[-1]:
        return 0.0
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            t = (x - xs[i]) / (xs[i + 1] - xs[i]) if xs[i + 1] > xs[i] else 1.0
            return ys[i] + t * (ys[i + 1] - ys[i])
    return ys[-1]


def ct2a(kind, ct):
    if kind == "Betz":
        return 0.5 * (1.0 - math.sqrt(1.0 - min(ct, 0.99999)))
    if kind == "Madsen":
        return 0.246 * ct + 0.0586 * ct ** 2 + 0.0883 * ct ** 3
    raise KeyError(kind)


def disc_overlap(r1, r2, d):
    """area of the intersection of two discs, by one-dimensional exact integration of chords"""
    if d >= r1 + r2 or r1 <= 0 or r2 <= 0:
        return 0.0
    if d <= abs(r1 - r2):
        return math.pi * min(r1, r2) ** 2
    a1 = math.acos(max(-1.0, min(1.0, (d * d + r1 * r1 - r2 * r2) / (2 * d * r1))))
    a2 = math.acos(max(-1.0, min(1.0, (d * d + r2 * r2 - r1 * r1) / (2 * d * r2))))
    return r1 * r1 * (a1 - 0.5 * math.sin(2 * a1)) + r2 * r2 * (a2 - 0.5 * math.sin(2 * a2))


# ---- wind deficits: (x, y, z, source) -> relative deficit, 0 outside --------

def kval(w, src):
    """wake expansion coefficient for a source turbine"""
    if w.get("k") is not None:
        return w["k"]
    if w.get("ka") is not None:
        return w["ka"] * src["AMB_TI" if w.get("amb") else "TI"] + (w.get("kb") or 0.0)
    return src["K"]


def jensen_radius(w, x, src):
    return src["D"] / 2 + kval(w, src) * x


def jensen_centre(w, x, src):
    return -(src["D"] / 2 / jensen_radius(w, x, src)) ** 2 * 2 * ct2a(w.get("ind", "Betz"), src["CT"])


def gauss(w, x, src):
    """amplitude, sigma of the gaussian single wake models"""
    D, ct, ind = src["D"], src["CT"], w.get("ind", "Madsen")
    a = ct2a(ind, ct)
    eps = w.get("sbeta", 0.2 if w["m"] == "Bastankhah2014" else 0.25) * math.sqrt((1 - a) / (1 - 2 * a))
    k = kval(w, src)
    if w["m"] == "Bastankhah2014":
        sigma = k * x + eps * D
    else:
        al = 1.5 * src["AMB_TI"]
        be = 0.8 * src["AMB_TI"] / math.sqrt(ct)
        q = al + be * x / D
        f = math.sqrt(q * q + 1) - math.sqrt(1 + al * al) \
            - math.log((math.sqrt(q * q + 1) + 1) * al / ((math.sqrt(1 + al * al) + 1) * q))
        sigma = D * (eps + k / be * f)
    return max(-2 * ct2a(ind, ct / (8 * (sigma / D) ** 2)), -1.0), sigma


def bp2016(w, x, y, z, src, gamma):
    """Bastankhah and Porte-Agel 2016, coordinates already relative to the (deflected) centre line"""
    D, ct, ti = src["D"], src["CT"], src["TI"]
    al, be, ind = w.get("alpha", 0.58), w.get("beta", 0.07), w.get("ind", "Madsen")
    k = kval(w, src)
    c = math.cos(gamma)
    twoac = 2 * ct2a(ind, ct * c)
    twoa = 2 * ct2a(ind, ct)
    x0 = D * c * (2 - twoa) / (math.sqrt(2) * (4 * al * ti + be * twoa))
    if x < x0:
        uR, u0 = 0.5 * ct * c / twoac, 1 - twoa
        rpc = 0.5 * D * math.sqrt(uR / u0) * (1 - x / x0)
        s = x / x0 * D * c / math.sqrt(8)
        r = math.hypot(y, z)
        return (u0 - 1) * (1.0 if r <= rpc else math.exp(-0.5 * ((r - rpc) / s) ** 2))
    sy = k * (x - x0) + D * c / math.sqrt(8)
    sz = k * (x - x0) + D / math.sqrt(8)
    A = max(-2 * ct2a(ind, ct * c * D * D / (8 * sy * sz)), -1.0)
    return A * math.exp(-0.5 * (y / sy) ** 2 - 0.5 * (z / sz) ** 2)


def bp2016_deflection(w, x, src, gamma):
    if x <= 1e-8 or src["CT"] <= 1e-8:
        return 0.0
    D, ct, ti = src["D"], src["CT"], src["TI"]
    al, be, ind = w.get("alpha", 0.58), w.get("beta", 0.07), w.get("ind", "Madsen")
    k = kval(w, src)
    c = math.cos(gamma)
    twoa = 2 * ct2a(ind, ct)
    theta = 0.3 * gamma / c * 2 * ct2a(ind, ct * c)
    x0 = D * c * (2 - twoa) / (math.sqrt(2) * (4 * al * ti + be * twoa))
    if x < x0:
        return theta * x
    sy = k * (x - x0) + D * c / math.sqrt(8)
    sz = k * (x - x0) + D / math.sqrt(8)
    q = math.sqrt(8 * sy * sz / (c * D * D))
    s = math.sqrt(ct)
    return theta * x0 + D * theta / 14.7 * math.sqrt(c / (ct * k * k)) * (2.9 + 1.3 * (1 - twoa) - ct) * \
        math.log((1.6 + s) * (1.6 * q - s) / ((1.6 - s) * (1.6 * q + s)))


# ---- TI wakes -------------------------------------------------------------

def ti_radius(w, x, src):
    D = src["D"]
    if w["m"] == "Crespo":
        a = ct2a("Betz", src["CT"])
        return 2 * (kval(w, src) * x + 0.25 * math.sqrt((1 - a) / (1 - 2 * a)) * D)
    if w.get("opening", True):
        return math.tan(math.radians(21.6 / 2)) * x
    return D / 2 + kval(w, src) * x


def ti_centre(w, x, src):
    D, ct = src["D"], src["CT"]
    if w["m"] == "Crespo":
        a, ti = ct2a("Betz", ct), src["TI"]
        near = (2 ** 0.83 * 0.362 / (0.73 * ti ** -0.0325) * (2 * a) ** (1 - 0.83)) ** (1 / -0.32)
        if x < near * D:
            return 0.362 * 2 * a
        return 0.73 * a ** 0.83 * ti ** -0.0325 * (x / D) ** -0.32
    if w["m"] == "IEC2005":
        return math.sqrt(0.9) / (1.5 + 0.3 * x / D * math.sqrt(src["REWS"]))
    return 1.0 / (1.5 + 0.8 * x / D / math.sqrt(ct))


TOPHAT = ("Jensen", "Crespo", "IEC2019", "IEC2005")
TIW = ("Crespo", "IEC2019", "IEC2005")
INDUCTION = ("VortexSheet", "Rathmann", "SelfSimilar", "SelfSimilar2020", "RHB")
AXI = TOPHAT + ("Bastankhah2014", "TurbOPark")


def radial(w, x, r, src):
    """axisymmetric models: value at (x, r), or None where the model makes no contribution"""
    if x <= 1e-8 or src["CT"] <= 1e-8:
        return None
    if w["m"] == "Jensen":
        return jensen_centre(w, x, src) if r < jensen_radius(w, x, src) else None
    if w["m"] in TIW:
        return ti_centre(w, x, src) if r < ti_radius(w, x, src) else None
    A, s = gauss(w, x, src)
    return A * math.exp(-0.5 * (r / s) ** 2)


def induction(w, x, r, src):
    """relative induction of a single turbine, or None"""
    ct, R, ind = src["CT"], src["D"] / 2, "Madsen"
    x = round(x, 12)
    if ct <= 1e-8:
        return None
    if x > 0 and (r <= R or w.get("pre_only")):
        return None
    sg = -1.0 if x <= 0 else 1.0
    xr, rr = -abs(x) / R, r / R
    mu = 1 + xr / math.sqrt(1 + xr * xr)
    m = w["m"]
    if m == "VortexSheet":
        q = math.hypot(r, x) / R
        return sg * ct2a(ind, ct) * (1 - q / math.sqrt(1 + q * q))
    if m == "Rathmann":
        den = math.sqrt((xr ** 2 + (rr - 1) ** 2) * (xr ** 2 + (rr + 1) ** 2))
        s2 = 2 * xr / den
        sa = math.sqrt(max(0.0, 0.5 * (1 - math.sqrt(max(0.0, 1 - s2 * s2)))))
        sb = 1 / math.sqrt(xr ** 2 + rr ** 2 + 1)
        return sg * ct2a(ind, ct) * mu * sa * sb * (1 + xr * xr)
    if m == "SelfSimilar":
        a0 = ct2a(ind, 1.1 * ct)
        rh = math.sqrt(0.587 * (1.32 + xr * xr))
    else:
        f = lambda q: 1 + q / math.sqrt(1 + q * q)
        xn = min(max(xr, -6.0), -1.0)
        c = (f(xn) - f(-1.0)) / (f(-6.0) - f(-1.0))
        far = -0.06489 * math.sin((ct - 0.4911) / 0.1577) + 1.116
        near = -1.381 * ct ** 3 + 2.627 * ct ** 2 - 1.524 * ct + 1.336
        a0 = ct2a(ind, (c * far + (1 - c) * near) * ct)
        rh = -0.672 * xr + 0.4897
    return sg * a0 * mu * (1 / math.cosh(math.sqrt(2) * rr / rh)) ** (8.0 / 9.0)


# ---- superpositions -------------------------------------------------------

class Superp:
    """collects single wake contributions at one point"""

    def __init__(self, name):
        lim = name.endswith("_lim")
        n = name[:-4] if lim else name
        self.lim = 1e-4 if lim else None
        self.ti = n.startswith("ti_")
        n = n[3:]
        self.loc = n.endswith("_loc")
        self.amb = n.endswith("_amb")
        self.kind = n[:-4] if self.loc or self.amb else n
        self.items = []

    def add(self, val, src, weight=1.0):
        if val is None:
            return
        self.items.append((val, src))

    def final(self, amb):
        """the total wake delta, for the ambient value at that point"""
        if self.ti:
            v = [q for q, _ in self.items]
            if self.kind == "linear":
                t = sum(v)
            elif self.kind == "max":
                t = max(v + [0.0])
            else:
                p = dict(quadratic=2, cubic=3, quartic=4)[self.kind]
                t = sum(q ** p for q in v) ** (1 / p)
            return math.sqrt(t * t + amb * amb) - amb
        if self.kind == "product":
            f = 1.0
            for q, _ in self.items:
                f *= 1 + q
            d = amb * (f - 1)
        else:
            v = []
            for q, s in self.items:
                v.append(q * (1.0 if self.loc else s["AMB_REWS"] if self.amb else s["REWS"]))
            if self.kind == "linear":
                d = sum(v)
            elif self.kind == "max":
                d = -max([abs(q) for q in v] + [0.0])
            else:
                p = dict(quadratic=2, cubic=3, quartic=4)[self.kind]
                d = -sum(abs(q) ** p for q in v) ** (1 / p)
            if self.loc:
                d *= amb
        if self.lim is not None:
            d = max(d, self.lim - amb)
        return d


# ---- the farm -------------------------------------------------------------

class Ref:
    """one state

    turbines: list of dict(x, y, H, D, curve=(ws, P, ct), rho0, k=(kTI, kb, var) or None, gamma=yaw misalignment in deg)
    amb: function (x, y, z) -> dict(WS, WD, TI, RHO); WD uniform
    wakes: list of dict(m=model, sup=superposition, k/ka/kb/amb, ind, pw=partial wakes, heights=mirror heights, ...)
    rotor: list of (dy, dz, weight) in units of the rotor radius
    """

    def __init__(self, turbines, amb, wakes, rotor, yaw_frame=None, grids=None):
        self.T = [dict(t) for t in turbines]
        self.amb, self.wakes, self.rotor = amb, wakes, rotor
        self.yaw_frame, self.grids = yaw_frame, grids or {}
        self.skip_first = False   # the first turbine of the order keeps its ambient results
        self.wd = amb(0.0, 0.0, 90.0)["WD"]
        a = math.radians(self.wd)
        self.n = (-math.sin(a), -math.cos(a))
        self.m = (-self.n[1], self.n[0])
        proj = [t["x"] * self.n[0] + t["y"] * self.n[1] for t in self.T]
        self.order = sorted(range(len(self.T)), key=lambda i: proj[i])
        self.up = bool(wakes) and all(w["m"] in INDUCTION for w in wakes)

    def ambient(self):
        for t in self.T:
            self.evaluate(t, [], late=True)
            for v in ("WS", "WD", "TI", "RHO", "REWS", "P", "CT", "K", "REWS2", "REWS3"):
                if v in t:
                    t["AMB_" + v] = t[v]

    def run(self):
        self.ambient()
        done = []
        for i in (reversed(self.order) if self.up else self.order):
            if self.skip_first and not done:
                done.append(i)
                continue
            self.evaluate(self.T[i], [self.T[j] for j in done])
            done.append(i)
        return self

    # coordinates of a point in the wake frame of a source, hub height h
    def coos(self, p, src, h):
        dx, dy = p[0] - src["x"], p[1] - src["y"]
        x = dx * self.n[0] + dy * self.n[1]
        y = dx * self.m[0] + dy * self.m[1]
        return x, y, p[2] - h

    def rpoints(self, t, pts, late=False):
        # yaw turns the rotor axis, hence the rotor plane
        a = math.radians(self.wd + (0.0 if late and t.get("late_yaw") else t.get("gamma", 0.0)))
        n = (-math.sin(a), -math.cos(a))
        m = (-n[1], n[0])
        return [((t["x"] + t["D"] / 2 * dy * m[0], t["y"] + t["D"] / 2 * dy * m[1], t["H"] + t["D"] / 2 * dz), w) for dy, dz, w in pts]

    def single(self, w, p, src, h, hub=None):
        """contribution of one source at one point

        hub: hub of the rotor plane the point belongs to, for models that evaluate a rotor at the downwind distance of its hub
        """
        x, y, z = self.coos(p, src, h)
        if self.yaw_frame is not None:
            y -= bp2016_deflection(self.yaw_frame, x if hub is None else self.coos(hub, src, h)[0], src, math.radians(src.get("gamma", 0.0)))
        if hub is not None:
            x = self.coos(hub, src, h)[0]
        if w["m"] in INDUCTION:
            return induction(w, x, math.hypot(y, z), src)
        if w["m"] == "Bastankhah2016":
            if x <= 1e-8 or src["CT"] <= 1e-8:
                return None
            return bp2016(w, x, y, z, src, math.radians(src.get("gamma", 0.0)))
        return radial(w, x, math.hypot(y, z), src)

    def partial(self, w, t, sources):
        """wake delta at each rotor point of turbine t, for one wake model"""
        pw = w["pw"]
        var = "TI" if w["m"] in TIW else "WS"
        rps = self.rpoints(t, self.rotor, late=True)
        ambs = [self.amb(*p)[var] for p, _ in rps]

        def images(s):
            return [s["H"]] + [s["H"] + 2 * (q - s["H"]) for q in w.get("heights", [])]

        if pw == "rotor_points":
            out = []
            for (p, _), a in zip(rps, ambs):
                sp = Superp(w["sup"])
                for s in sources:
                    for h in images(s):
                        sp.add(self.single(w, p, s, h), s)
                out.append(sp.final(a))
            return out
        if pw.startswith("grid"):
            g = self.grids[pw]
            gp = self.rpoints(t, g)
            same = len(gp) == len(rps)
            abar = sum(a * q for a, (_, q) in zip(ambs, rps))
            tot = 0.0
            centre = (t["x"], t["y"], t["H"])
            for i, (p, q) in enumerate(gp):
                sp = Superp(w["sup"])
                for s in sources:
                    for h in images(s):
                        sp.add(self.single(w, p, s, h, centre), s)
                tot += q * sp.final(ambs[i] if same else abar)
            return [tot] * len(rps)
        sp = Superp(w["sup"])
        hub = (t["x"], t["y"], t["H"])
        for s in sources:
            for h in images(s):
                if pw == "centre":
                    sp.add(self.single(w, hub, s, h), s)
                    continue
                x, y, z = self.coos(hub, s, h)
                if self.yaw_frame is not None:
                    y -= bp2016_deflection(self.yaw_frame, x, s, math.radians(s.get("gamma", 0.0)))
                d, R = math.hypot(y, z), t["D"] / 2
                if x <= 1e-8 or s["CT"] <= 1e-8:
                    continue
                if pw == "top_hat":
                    rad = (jensen_radius if w["m"] == "Jensen" else ti_radius)(w, x, s)
                    if rad > d - R:
                        c = (jensen_centre if w["m"] == "Jensen" else ti_centre)(w, x, s)
                        sp.add(c * disc_overlap(R, rad, d) / (math.pi * R * R), s)
                elif pw.startswith("axiwake"):
                    n = int(pw[7:])
                    if d >= R:
                        edges = [d - R + 2 * R * i / n for i in range(n + 1)]
                        mids = [0.5 * (edges[i] + edges[i + 1]) for i in range(n)]
                    else:
                        st = (d + R) / (n - 0.5)
                        edges = [0.0] + [st * (i + 0.5) for i in range(n)]
                        mids = [st * i for i in range(n)]
                    A = [disc_overlap(R, e, d) for e in edges]
                    wg = [A[i + 1] - A[i] for i in range(n)]
                    tot, any_ = 0.0, False
                    for r, q in zip(mids, wg):
                        v = radial(w, x, r, s)
                        if v is not None:
                            any_ = True
                            tot += v * q / sum(wg)
                    if any_:
                        sp.add(tot, s)
                else:
                    raise KeyError(pw)
        return [sp.final(a) for a in ambs]

    def evaluate(self, t, sources, late=False):
        """rotor averages, then turbine models

        late_yaw: the yaw angle is known only after the ambient rotor average, which hence is not
        projected on the rotor axis, and the rotor points stay in the plane across the wind direction
        """
        rps = self.rpoints(t, self.rotor, late=True)
        res = [dict(self.amb(*p)) for p, _ in rps]
        if sources:
            for w in self.wakes:
                var = "TI" if w["m"] in TIW else "WS"
                for r, d in zip(res, self.partial(w, t, sources)):
                    r[var] += d
        ws = [q for _, q in rps]
        gam = math.radians(0.0 if late and t.get("late_yaw") else t.get("gamma", 0.0))
        proj = [r["WS"] * math.cos(gam) for r in res]
        t["REWS"] = max(0.0, sum(a * q for a, q in zip(proj, ws)))
        t["REWS2"] = math.sqrt(max(0.0, sum(math.copysign(a * a, a) * q for a, q in zip(proj, ws))))
        t["REWS3"] = max(0.0, sum(a ** 3 * q for a, q in zip(proj, ws))) ** (1.0 / 3.0)
        t["TI"] = sum(r["TI"] * q for r, q in zip(res, ws))
        t["RHO"] = sum(r["RHO"] * q for r, q in zip(res, ws))
        t["WD"] = self.wd
        c = math.cos(math.radians(t.get("gamma", 0.0)))
        u2, u3 = t["REWS2"], t["REWS3"]
        if t.get("yawmodel"):
            u2 *= c ** 0.5
            u3 *= (c ** 1.88) ** (1.0 / 3.0)
        if t.get("rho0") is not None:
            u3 *= (t["rho0"] / t["RHO"]) ** (1.0 / 3.0)
        t["CT"] = interp(u2, t["curve"][0], t["curve"][2])
        t["P"] = interp(u3, t["curve"][0], t["curve"][1])
        if t.get("k"):
            a, b, var = t["k"]
            if var == "AMB_TI":
                if "AMB_TI" in t:
                    t["K"] = a * t["AMB_TI"] + b
                else:
                    t["K"] = a * t["TI"] + b
            else:
                t["K"] = a * t["TI"] + b

    def point(self, p):
        """waked values at a point, after run()"""
        out = dict(self.amb(*p))
        for v in list(out):
            out["AMB_" + v] = out[v]
        for w in self.wakes:
            var = "TI" if w["m"] in TIW else "WS"
            sp = Superp(w["sup"])
            for s in self.T:
                for h in [s["H"]] + [s["H"] + 2 * (q - s["H"]) for q in w.get("heights", [])]:
                    sp.add(self.single(w, p, s, h), s)
            out[var] += sp.final(out[var])
        return out
