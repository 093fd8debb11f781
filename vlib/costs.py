"""Every cost function shipped with the library: builders over theseus variables and independent numpy errors.

A cost case is JSON: {kind, g, dtype, B, seed, b:[flag per variable], w:{kind,b,zero}, scale}.  Variables
are named roles; a role's spec is a group name, "S<k>" (positive scalar-like (n,k) data), "V<k>" (plain
(n,k) variable) or "G<r>x<c>" (distance-field data).
"""
import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from . import gens, ref
from .th import DT, cls

ALLG = ref.LIE + ["R1", "R2", "R3", "Point2", "Point3"]


def _log(g, X):
    return ref.log(g, X)


def _local(g, a, b):
    return _log(g, ref.compose(g, ref.inv(g, a), b))


def _angle_margin(g, xi):
    """distance of the rotation angle of a tangent vector from pi"""
    if ref.is_vec(g):
        return 10.0
    k = {"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}[g]
    return math.pi - np.linalg.norm(xi[k:])


class Kind:
    groups = [None]
    cls = None

    def __init__(self, g=None):
        self.g = g

    def draw(self, role, spec, n, r, sc):
        return None  # default drawing

    def smooth(self, e):
        """distance to the nearest kink (large when smooth)"""
        return 10.0


class Local(Kind):
    groups = ALLG
    optim = property(lambda s: [("var", s.g)])
    aux = property(lambda s: [("target", s.g)])

    def build(self, V, w, name):
        return th.Local(V["var"], V["target"], w, name=name)

    def err(self, e):
        return _local(self.g, e["target"], e["var"])

    def smooth(self, e):
        return _angle_margin(self.g, self.err(e))


class Between(Kind):
    groups = ALLG
    optim = property(lambda s: [("v0", s.g), ("v1", s.g)])
    aux = property(lambda s: [("m", s.g)])

    def build(self, V, w, name):
        return th.Between(V["v0"], V["v1"], V["m"], w, name=name)

    def err(self, e):
        return _local(self.g, e["m"], ref.compose(self.g, ref.inv(self.g, e["v0"]), e["v1"]))

    def smooth(self, e):
        return _angle_margin(self.g, self.err(e))


class Moving(Kind):
    groups = ALLG
    optim = property(lambda s: [("f1", s.g), ("f2", s.g), ("p1", s.g), ("p2", s.g)])
    aux = property(lambda s: [("m", s.g)])

    def build(self, V, w, name):
        return th.eb.MovingFrameBetween(V["f1"], V["f2"], V["p1"], V["p2"], V["m"], w, name=name)

    def diff(self, e):
        g = self.g
        a = ref.compose(g, ref.inv(g, e["f1"]), e["p1"])
        b = ref.compose(g, ref.inv(g, e["f2"]), e["p2"])
        return ref.compose(g, ref.inv(g, a), b)

    def err(self, e):
        return _local(self.g, e["m"], self.diff(e))

    def smooth(self, e):
        return _angle_margin(self.g, self.err(e))


class Reproj(Kind):
    groups = ["k", "nok"]
    optim = property(lambda s: [("cam", "SE3"), ("pt", "Point3")])
    aux = property(lambda s: [("focal", "S1"), ("img", "Point2")] + ([("k1", "R1"), ("k2", "R1")] if s.g == "k" else []))

    def draw(self, role, spec, n, r, sc):
        if role in ("k1", "k2"):
            return r.normal(size=(n, 1)) * 0.2
        if role == "pt":
            return r.normal(size=(n, 3)) + np.array([0, 0, 6.0]) * (1 if r.integers(0, 2) else -1)

    def build(self, V, w, name):
        kw = dict(calib_k1=V["k1"], calib_k2=V["k2"]) if self.g == "k" else {}
        return th.eb.Reprojection(V["cam"], V["pt"], V["img"], V["focal"], weight=w, name=name, **kw)

    def err(self, e):
        p = ref.act("SE3", e["cam"], e["pt"])
        q = -p[:2] / p[2]
        r2 = q @ q
        k1, k2 = (e["k1"][0], e["k2"][0]) if self.g == "k" else (0.0, 0.0)
        return e["focal"][0] * (1 + k1 * r2 + k2 * r2**2) * q - e["img"]

    def smooth(self, e):
        return abs(ref.act("SE3", e["cam"], e["pt"])[2]) - 0.5


class DInt(Kind):
    groups = ref.LIE + ["R1", "R2", "R3", "Point2"]

    @property
    def d(self):
        return ref.dof(self.g)

    optim = property(lambda s: [("p1", s.g), ("v1", "R%d" % s.d), ("p2", s.g), ("v2", "R%d" % s.d)])
    aux = property(lambda s: [("dt", "S1")])

    def build(self, V, w, name):
        return th.eb.DoubleIntegrator(V["p1"], V["v1"], V["p2"], V["v2"], V["dt"], w, name=name)

    def err(self, e):
        d = _local(self.g, e["p1"], e["p2"])
        return np.concatenate([d - e["dt"][0] * e["v1"], e["v2"] - e["v1"]])

    def smooth(self, e):
        return _angle_margin(self.g, _local(self.g, e["p1"], e["p2"]))


class GPM(DInt):
    def build(self, V, w, name):
        return th.eb.GPMotionModel(V["p1"], V["v1"], V["p2"], V["v2"], V["dt"], w, name=name)


class Hinge(Kind):
    groups = ["R1", "R2", "R3", "Point2"]

    @property
    def d(self):
        return ref.dof(self.g)

    optim = property(lambda s: [("x", s.g)])
    aux = property(lambda s: [("dn", "V%d" % s.d), ("up", "V%d" % s.d), ("thr", "S%d" % s.d)])

    def draw(self, role, spec, n, r, sc):
        if role == "dn":
            return -0.2 - r.random(size=(n, self.d))
        if role == "up":
            return 0.2 + r.random(size=(n, self.d))
        if role == "thr":
            # a threshold beyond half the range makes both sides active in between
            return r.choice([0.2, 0.2, 1.2]) * r.random(size=(n, self.d))

    def build(self, V, w, name):
        return th.eb.HingeCost(V["x"], V["dn"], V["up"], V["thr"], w, name=name)

    def err(self, e):
        lo, hi, x = e["dn"] + e["thr"], e["up"] - e["thr"], e["x"]
        return np.where(x > hi, x - hi, np.where(x < lo, lo - x, 0.0))

    def smooth(self, e):
        return min(abs(e["x"] - e["dn"] - e["thr"]).min(), abs(e["x"] - e["up"] + e["thr"]).min()) * 100


class Nonhol(Kind):
    groups = ["SE2", "R3", "Point3"]
    optim = property(lambda s: [("pose", s.g), ("vel", "R3" if s.g != "Point3" else "Point3")])
    aux = []

    def build(self, V, w, name):
        return th.eb.Nonholonomic(V["pose"], V["vel"], w, name=name)

    def err(self, e):
        v = e["vel"]
        if self.g == "SE2":
            return np.array([v[1]])
        a = e["pose"][2]
        return np.array([v[1] * math.cos(a) - v[0] * math.sin(a)])


class Push(Kind):
    optim = [(n, "SE2") for n in ("o1", "o2", "e1", "e2")]
    aux = [("c", "S1")]

    def build(self, V, w, name):
        return th.eb.QuasiStaticPushingPlanar(V["o1"], V["o2"], V["e1"], V["e2"], V["c"], w, name=name)

    def _omega(self, e):
        return ref.log("SE2", ref.compose("SE2", ref.inv("SE2", e["o1"]), e["o2"]))[2]

    def err(self, e):
        R2 = e["o2"][:2, :2]
        px, py = ref.act("SE2", ref.inv("SE2", e["o2"]), e["e2"][:2, 2])
        D = np.array([[1, 0, -py], [0, 1, px], [-py, px, -e["c"][0]]])
        V = np.append(R2.T @ (e["o2"][:2, 2] - e["o1"][:2, 2]), self._omega(e))
        Vp = np.append(R2.T @ (e["e2"][:2, 2] - e["e1"][:2, 2]), 0)
        return D @ V - Vp

    def smooth(self, e):
        return math.pi - abs(self._omega(e))


def sdf_query(data, origin, cell, p, boundary=0.0):
    """bilinear interpolation; returns value, gradient, distance (in cells) to the nearest cell border"""
    c, r = (p[0] - origin[0]) / cell, (p[1] - origin[1]) / cell
    R, C = data.shape
    kink = min(abs(c - round(c)), abs(r - round(r)))
    if c < 0 or r < 0 or c > C - 1 or r > R - 1:
        return boundary, np.zeros(2), min(min(abs(c), abs(c - C + 1)), min(abs(r), abs(r - R + 1)))
    c0, r0 = min(int(c), max(C - 2, 0)), min(int(r), max(R - 2, 0))
    c1, r1 = min(c0 + 1, C - 1), min(r0 + 1, R - 1)
    a, b = c - c0, r - r0
    v = ((1 - b) * ((1 - a) * data[r0, c0] + a * data[r0, c1]) + b * ((1 - a) * data[r1, c0] + a * data[r1, c1]))
    gx = ((1 - b) * (data[r0, c1] - data[r0, c0]) + b * (data[r1, c1] - data[r1, c0])) / cell
    gy = ((1 - a) * (data[r1, c0] - data[r0, c0]) + a * (data[r1, c1] - data[r0, c1])) / cell
    return v, np.array([gx, gy]), kink


class Coll(Kind):
    groups = ["Point2", "SE2"]
    optim = property(lambda s: [("pose", s.g)])
    aux = [("origin", "Point2"), ("sdf", "G5x7"), ("cell", "S1"), ("eps", "S1")]

    def draw(self, role, spec, n, r, sc):
        if role == "origin":
            return -1.5 + 0.2 * r.normal(size=(n, 2))
        if role == "cell":
            return 0.5 + 0.3 * r.random(size=(n, 1))
        if role == "sdf":
            return r.normal(size=(n, 5, 7)) + 0.3

    def build(self, V, w, name):
        return th.eb.Collision2D(V["pose"], V["origin"], V["sdf"], V["cell"], V["eps"], w, name=name)

    def _pt(self, e):
        return e["pose"][:2, 2] if self.g == "SE2" else e["pose"]

    def _q(self, e):
        return sdf_query(e["sdf"], e["origin"], e["cell"][0], self._pt(e))

    def err(self, e):
        return np.array([max(e["eps"][0] - self._q(e)[0], 0.0)])

    def smooth(self, e):
        v, _, k = self._q(e)
        return min(k * 10, abs(v - e["eps"][0]) * 100)


class Contact(Coll):
    groups = [None]
    optim = [("obj", "SE2"), ("eff", "SE2")]
    aux = [("origin", "Point2"), ("sdf", "G5x7"), ("cell", "S1"), ("rad", "S1")]

    def build(self, V, w, name):
        return th.eb.EffectorObjectContactPlanar(V["obj"], V["eff"], V["origin"], V["sdf"], V["cell"], V["rad"], w, name=name)

    def _pt(self, e):
        return ref.act("SE2", ref.inv("SE2", e["obj"]), e["eff"][:2, 2])

    def err(self, e):
        return np.array([abs(self._q(e)[0] - e["rad"][0])])

    def smooth(self, e):
        v, _, k = self._q(e)
        return min(k * 10, abs(v - e["rad"][0]) * 100)


KINDS = dict(local=Local, between=Between, moving=Moving, reproj=Reproj, dint=DInt, gp=GPM, hinge=Hinge,
             nonhol=Nonhol, push=Push, coll=Coll, contact=Contact)


def gp_weight(Q, dt):
    """upper-triangular W with W^T W = the GP information matrix"""
    I = np.block([[12 * dt**-3 * Q, -6 * dt**-2 * Q], [-6 * dt**-2 * Q, 4 / dt * Q]])
    return np.linalg.cholesky(I).T


@st.composite
def spec(draw, kinds=None, max_b=3, dtypes=None, single_opt=True, weights=("none", "scale", "diag")):
    kind = draw(st.sampled_from(sorted(kinds or KINDS)))
    g = draw(st.sampled_from(KINDS[kind].groups))
    K = KINDS[kind](g)
    n = len(K.optim) + len(K.aux)
    B = draw(st.integers(1, max_b))
    b = [int(draw(st.integers(0, 3)) > 0) for _ in range(n)]
    if not single_opt:
        b[: len(K.optim)] = [1] * len(K.optim)
    w = dict(kind="gp" if kind == "gp" else draw(st.sampled_from(weights)), b=int(draw(st.integers(0, 2)) > 0))
    return dict(kind=kind, g=g, dtype=draw(dtypes or gens.dtypes), B=B, b=b, w=w, seed=draw(gens.seeds),
                form=draw(st.integers(0, 255)) if kind in ATTR and draw(st.booleans()) else 0,
                scale=draw(st.sampled_from([0.3, 0.8, 0.8, 2.0])))


# attributes holding the variable made from an argument that was given as a tensor or a float
ATTR = dict(dint=dict(dt="dt"), push=dict(c="c_square"), hinge=dict(dn="down_limit", up="up_limit", thr="threshold"),
            coll=dict(origin="sdf_origin", sdf="sdf_data", cell="sdf_cell_size", eps="cost_eps"),
            contact=dict(origin="sdf_origin", sdf="sdf_data", cell="sdf_cell_size", rad="eff_radius"))


class Cost:
    """One generated cost function: values (float64, rounded to dtype), theseus objects, reference error."""

    def __init__(self, c, prefix="", flat=True):
        self.c = c
        self.K = KINDS[c["kind"]](c["g"])
        self.dt = DT[c["dtype"]]
        self.prefix, self.flat = prefix, flat
        r = gens.rng(c["seed"])
        self.specs = dict(list(self.K.optim) + list(self.K.aux))
        self.roles = list(self.specs)
        self.optim = [n for n, _ in self.K.optim]
        self.vals = {}
        for n, b in zip(self.roles, c["b"]):
            self.vals[n] = self.draw(n, c["B"] if b else 1, r)
        nw = c["B"] if c["w"]["b"] else 1
        wk = c["w"]["kind"]
        d = self.dim()
        if wk == "scale":
            self.specs["w"], a = "V1", np.exp(0.5 * r.normal(size=(nw, 1)))
        elif wk == "diag":
            self.specs["w"], a = "V%d" % d, np.exp(0.5 * r.normal(size=(nw, d)))
        elif wk == "gp":
            m = d // 2
            L = r.normal(size=(nw, m, m))
            self.specs["w"], a = "Q", L @ L.transpose(0, 2, 1) + np.eye(m)
        else:
            a = None
        if a is not None:
            self.vals["w"] = self.round(a)

    def round(self, a):
        return torch.tensor(np.asarray(a), dtype=self.dt).double().numpy()

    def draw(self, role, n, r):
        sp, sc = self.specs[role], self.c["scale"]
        a = self.K.draw(role, sp, n, r, sc)
        if a is None:
            if sp[0] == "S" and sp[1:].isdigit():
                a = np.exp(0.5 * r.normal(size=(n, int(sp[1:]))))
            elif sp[0] == "V":
                a = r.normal(size=(n, int(sp[1:]))) * sc
            else:
                a = np.stack([ref.to_data(sp, ref.exp(sp, r.normal(size=ref.dof(sp)) * sc)) for _ in range(n)])
        return self.round(a)

    def is_group(self, role):
        sp = self.specs[role]
        return not (sp[0] in "SVG" and sp not in ref.LIE) and sp != "Q"

    def var(self, role, vals=None):
        t = torch.tensor((vals or self.vals)[role], dtype=self.dt)
        n = self.prefix + role
        if self.specs[role] == "S1" and self.c["kind"] == "reproj":
            return th.Vector(tensor=t, name=n)
        return cls(self.specs[role])(tensor=t, name=n) if self.is_group(role) else th.Variable(t, name=n)

    def build(self, vals=None, name="cf"):
        self.V = {n: self.var(n, vals) for n in self.vals}
        wk = self.c["w"]["kind"]
        V = self.V
        if wk == "none":
            V["w"] = th.Variable(torch.ones(1, 1, dtype=self.dt), name=self.prefix + "w")
        if wk in ("none", "scale"):
            self.W = th.ScaleCostWeight(V["w"], name=self.prefix + "weight_of")
        elif wk == "diag":
            self.W = th.DiagonalCostWeight(V["w"], name=self.prefix + "weight_of")
        else:
            self.W = th.eb.GPCostWeight(V["w"], V["dt"], name=self.prefix + "weight_of")
        attrs = ATTR.get(self.c["kind"], {})
        args, raw = dict(V), []
        for i, m in enumerate(attrs):
            code = (self.c.get("form", 0) >> 2 * i) & 3
            if code < 2:
                continue
            a = V[m].tensor.clone()
            if code == 3 and self.specs[m] == "S1" and self.c["kind"] != "hinge" and (self.flat or m not in ("c", "cell")):
                a = a.view(-1)
                if a.numel() == 1 and m in ("dt", "eps", "rad") and self.c["seed"] % 2:
                    a = a.view(())
            if code == 3 and V[m].tensor.numel() == 1 and self.dt == torch.float32 and self.c["seed"] % 3:
                a = float(V[m].tensor)
            args[m] = a
            raw.append(m)
        self.cf = self.K.build(args, self.W, name)
        for m in raw:
            V[m] = getattr(self.cf, attrs[m])
        self.raw = raw
        return self.cf

    def set(self, role, a):
        """update the variable of a role with a new value"""
        v = self.V[role]
        v.update(torch.tensor(a, dtype=self.dt).view(a.shape[:1] + v.shape[1:]))

    def el(self, vals, b):
        out = {}
        for n in self.roles:
            a = vals[n][b if vals[n].shape[0] > 1 else 0]
            out[n] = ref.from_data(self.specs[n], a) if self.is_group(n) else a
        return out

    def batch(self, vals=None, weight=False):
        vals = vals or self.vals
        return max(v.shape[0] for n, v in vals.items() if weight or n in self.roles)

    def dim(self):
        k, d = self.c["kind"], 1
        if k in ("local", "between", "moving", "hinge"):
            return ref.dof(self.c["g"])
        if k in ("dint", "gp"):
            return 2 * ref.dof(self.c["g"])
        return {"reproj": 2, "push": 3}.get(k, 1)

    def errors(self, vals=None):
        vals = vals or self.vals
        return np.stack([self.K.err(self.el(vals, b)) for b in range(self.batch(vals))])

    def smooth(self, vals=None):
        vals = vals or self.vals
        return min(self.K.smooth(self.el(vals, b)) for b in range(self.batch(vals)))

    def jac(self, vals, b, role, fn=None, eps=1e-5):
        e = self.el(vals, b)
        g = self.specs[role]
        f = fn or self.K.err
        d = len(f(e))
        return ref.num_jac(g, e[role], lambda y: f(dict(e, **{role: y})), "R%d" % d, eps)

    def wmat(self, vals, b):
        wk, d = self.c["w"]["kind"], self.dim()
        if wk == "none":
            return np.eye(d)
        w = vals["w"][b if vals["w"].shape[0] > 1 else 0]
        if wk == "gp":
            dt = vals["dt"]
            return gp_weight(w, dt[b if dt.shape[0] > 1 else 0][0])
        return np.diag(w * np.ones(d))
