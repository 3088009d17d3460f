"""The same world, rotated, mirrored or moved."""
import copy, math
import numpy as np


class Geo:
    def __init__(self, theta=0.0, mirror=False, shift=(0.0, 0.0)):
        """mirror at y=0, then clockwise rotation by theta degrees, then shift"""
        self.theta, self.mirror, self.shift = theta, mirror, shift
        t = math.radians(theta)
        self.M = np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]]) @ np.diag([1.0, -1.0 if mirror else 1.0])
        self.sign, self.off = (-1.0, 180.0 + theta) if mirror else (1.0, theta)

    def xy(self, a):
        return np.asarray(a, dtype=float) @ self.M.T + np.asarray(self.shift)

    def vec(self, a):
        return np.asarray(a, dtype=float) @ self.M.T

    def pts(self, a):
        a = np.array(a, dtype=float)
        a[..., :2] = self.xy(a[..., :2])
        return a

    def wd(self, a):
        return np.mod(self.sign * np.asarray(a) + self.off, 360.0)

    def spec(self, spec):
        s = copy.deepcopy(spec)
        s["xy"] = [list(map(float, self.xy(p))) for p in s["xy"]]
        if s.get("moving"):
            s["moving"] = [list(map(float, self.vec(p))) for p in s["moving"]]
        st = s["states"]
        if st.get("kind") in ("field",):
            if self.theta:
                return None
            st["grid"] = dict(st.get("grid") or {}, shift=self.shift, mirror=self.mirror)
        elif st.get("kind") in ("wrg", "tab"):
            return None
        else:
            st["wdmap"] = (self.sign, self.off)
        if st.get("kind") == "opf":
            st["ref_xy"] = list(map(float, self.xy(st.get("ref_xy", [0.0, 0.0]))))
        for d in (s.get("tmodels") or {}).values():
            if d["cls"] == "SectorManagement" and (self.theta or self.mirror):
                return None
            v = d.get("vars") or {}
            if "YAWM" in v and self.mirror:
                v["YAWM"] = [[None if q is None else -q for q in r] for r in v["YAWM"]]
            if "YAW" in v:
                v["YAW"] = [[None if q is None else float(self.wd(q)) for q in r] for r in v["YAW"]]
            if "X" in v or "Y" in v:
                return None
        return s

    def obs(self, o, expected=False):
        """directions as unit vectors; expected: the original observation, transformed"""
        out = {}
        o = dict(o)
        if expected and "X" in o:
            p = self.xy(np.stack([o["X"][1], o["Y"][1]], axis=-1))
            o["X"], o["Y"] = (o["X"][0], p[..., 0]), (o["Y"][0], p[..., 1])
        for v, (d, x) in o.items():
            if v.startswith(("WD", "AMB_WD")) or v in ("YAW", "AMB_YAW"):
                x = np.deg2rad(self.wd(x) if expected else x)
                out[v + "_sin"], out[v + "_cos"] = (d, np.sin(x)), (d, np.cos(x))
                continue
            if v in ("YAWM", "AMB_YAWM") and expected and self.mirror:
                x = -x
            if v in ("x", "y", "z"):
                continue
            out[v] = (d, x)
        return out
