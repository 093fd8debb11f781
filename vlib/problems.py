"""Generated least-squares problems with an independent numpy evaluation.

A spec is JSON: {dtype, B, seed, scale, vars:[{g,b}], aux:[{g,b}], scal:[{b,n,zero}],
cfs:[{kind, v:[i..], a:[j..], w:{kind,i}, robust:{loss,r,flatten}|None}]}.  b is 1 for full batch, 0 for singleton.
"""
import math

import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from . import gens, ref
from .th import DT, cls

KINDS = ["local", "between", "auto", "auto2", "lin", "mix"]


def f_sq(optim_vars, aux_vars):
    """nonlinear error of one vector variable and an auxiliary vector"""
    (x,) = optim_vars
    (a,) = aux_vars
    return x.tensor + 0.3 * x.tensor**2 - a.tensor


def f_sq2(optim_vars, aux_vars):
    (x,) = optim_vars
    (a,) = aux_vars
    return (0.5 * x.tensor).sin() + 2 * x.tensor - a.tensor


def f_hard(optim_vars, aux_vars):
    """strongly nonlinear: Gauss-Newton steps often overshoot"""
    (x,) = optim_vars
    (a,) = aux_vars
    return 4 * (2 * x.tensor).sin() + x.tensor**2 - 3 * a.tensor


def f_pair(optim_vars, aux_vars):
    x, y = optim_vars
    (a,) = aux_vars
    return x.tensor - 2 * y.tensor + 0.2 * (x.tensor * y.tensor) - a.tensor


def f_lie(optim_vars, aux_vars):
    """Lie variables: action on a fixed point minus an auxiliary point"""
    x, y = optim_vars
    (a,) = aux_vars
    return x.local(y) - a.tensor


def mix_coef(k, n):
    """coefficients (2, n) of the k-th variable of a "mix" cost function"""
    i = np.arange(2 * n).reshape(2, n)
    return np.cos(1.0 + 1.7 * i + 2.9 * k) / math.sqrt(n)


def f_mix(optim_vars, aux_vars):
    """two linear combinations of the data of any number of variables of any kind"""
    (a,) = aux_vars
    e = -a.tensor
    for k, x in enumerate(optim_vars):
        d = x.tensor.reshape(x.shape[0], -1)
        e = e + d @ torch.as_tensor(mix_coef(k, d.shape[1]), dtype=d.dtype).T
    return e


class Lin(th.CostFunction):
    """User-defined analytic cost: sum_i A_i x_i - b with auxiliary matrices A (B, m, sum d)."""

    def __init__(self, xs, A, b, w, name=None):
        super().__init__(w, name=name)
        self.n = len(xs)
        for i, x in enumerate(xs):
            setattr(self, f"x{i}_", x)
            self.register_optim_var(f"x{i}_")
        self.A = A
        self.b = b
        self.register_aux_vars(["A", "b"])

    def _parts(self):
        xs = list(self.optim_vars)
        out, k = [], 0
        for x in xs:
            out.append(self.A.tensor[..., k : k + x.dof()])
            k += x.dof()
        return xs, out

    def error(self):
        xs, As = self._parts()
        e = -self.b.tensor
        for x, A in zip(xs, As):
            e = e + (A @ x.tensor.unsqueeze(2)).squeeze(2)
        return e

    def jacobians(self):
        err = self.error()
        _, As = self._parts()
        return [A.expand((err.shape[0],) + A.shape[1:]) for A in As], err

    def dim(self):
        return self.A.shape[1]

    def _copy_impl(self, new_name=None):
        return Lin([x.copy() for x in self.optim_vars], self.A.copy(), self.b.copy(),
                   self.weight.copy(), name=new_name)


LOSSES = {"huber": th.HuberLoss, "welsch": th.WelschLoss, "gm": th.GemanMcClureLoss}
VEC_G = ["R1", "R2", "R3"]


@st.composite
def spec(draw, groups=None, kinds=None, max_b=3, max_vars=4, max_cfs=6, dtypes=None, robust=True,
         single_opt=False, zero=True, single_aux=True, scale=None, min_b=1, anchored=False, weights=True, hard=False, repeat=False):
    """repeat: a cost function can use a variable in two slots (robust and vectorised wrappers refuse that).
    anchored: every variable gets a well-conditioned unit-weight local/lin anchor."""
    dt = draw(dtypes if dtypes is not None else gens.dtypes)
    B = draw(st.integers(min_b, max_b))
    groups = groups or VEC_G + ref.LIE
    kinds = kinds or KINDS
    ng = draw(st.integers(1, 2))
    gs = [draw(st.sampled_from(groups)) for _ in range(ng)]
    nv = draw(st.integers(1, max_vars))
    vars_ = [dict(g=draw(st.sampled_from(gs)), b=1) for _ in range(nv)]
    if single_opt:
        for v in vars_:
            v["b"] = int(draw(st.integers(0, 3)) > 0)
    by = {}
    for i, v in enumerate(vars_):
        by.setdefault(v["g"], []).append(i)
    aux, scal, cfs = [], [], []

    def batch_flag():
        return int(draw(st.integers(0, 2)) > 0) if single_aux else 1

    def new_aux(g):
        same = [j for j, a in enumerate(aux) if a["g"] == g]
        if same and draw(st.integers(0, 2)) == 0:
            return draw(st.sampled_from(same))
        aux.append(dict(g=g, b=batch_flag()))
        return len(aux) - 1

    def weight(dim):
        if not weights:
            return None
        kind = draw(st.sampled_from(["scale", "diag"]))
        n = 1 if kind == "scale" else dim
        same = [j for j, s in enumerate(scal) if s["n"] == n and s["kind"] == kind]
        if same and draw(st.integers(0, 2)) > 0:
            j = draw(st.sampled_from(same))
        else:
            scal.append(dict(n=n, kind=kind, b=batch_flag(), zero=int(zero and draw(st.integers(0, 4)) == 0)))
            j = len(scal) - 1
        return dict(i=j)

    def rob():
        if not robust or draw(st.integers(0, 4)) > 0:
            return None
        return dict(loss=draw(st.sampled_from(sorted(LOSSES))), r=draw(st.integers(-20, 20)) / 10.0,
                    flatten=int(draw(st.booleans())))

    def add(kind, v, a, dim, extra=None):
        cfs.append(dict(kind=kind, v=v, a=a, w=weight(dim), rob=rob(), **(extra or {})))

    if anchored:
        for i, v in enumerate(vars_):
            cfs.append(dict(kind="local", v=[i], a=[new_aux(v["g"])], w=None, rob=None))
    for _ in range(draw(st.integers(1, max_cfs))):
        kind = draw(st.sampled_from(kinds))
        i = draw(st.integers(0, nv - 1))
        g = vars_[i]["g"]
        if kind == "local":
            add(kind, [i], [new_aux(g)], ref.dof(g))
        elif kind in ("between", "auto2"):
            js = [j for j in by[g] if j != i]
            if repeat and kind == "between" and draw(st.integers(0, 2)) == 0:
                js = [i]  # the same variable in both slots
            if not js:
                add("local", [i], [new_aux(g)], ref.dof(g))
                continue
            j = draw(st.sampled_from(js))
            add(kind, [i, j], [new_aux(g if kind == "between" else "R%d" % ref.dof(g))], ref.dof(g))
        elif kind == "auto":
            if not ref.is_vec(g):
                add("local", [i], [new_aux(g)], ref.dof(g))
            else:
                add(kind, [i], [new_aux(g)], ref.dof(g), dict(f=draw(st.sampled_from([2, 2, 2, 0, 1])) if hard else draw(st.integers(0, 1))))
        elif kind == "mix":
            k = draw(st.integers(1, nv))
            v = draw(st.permutations(range(nv)))[:k]
            add(kind, list(v), [new_aux("R2")], 2)
        else:
            vs = [j for j, v in enumerate(vars_) if ref.is_vec(v["g"])]
            if not vs:
                add("local", [i], [new_aux(g)], ref.dof(g))
                continue
            k = draw(st.integers(1, len(vs)))
            v = draw(st.permutations(vs))[:k]
            if repeat and draw(st.booleans()):  # a variable in two slots
                v = list(v) + [v[0]]
            m = draw(st.integers(1, 3))
            d = sum(ref.dof(vars_[j]["g"]) for j in v)
            add(kind, list(v), [new_aux("M%dx%d" % (m, d)), new_aux("R%d" % m)], m)
    # every variable must be used somewhere
    used = {i for c in cfs for i in c["v"]}
    for i, v in enumerate(vars_):
        if i not in used:
            add("local", [i], [new_aux(v["g"])], ref.dof(v["g"]))
    if B > 1 and not any(v["b"] for v in vars_) and not any(a["b"] for a in aux + scal):
        vars_[0]["b"] = 1
    return dict(dtype=dt, B=B, seed=draw(gens.seeds), vars=vars_, aux=aux, scal=scal, cfs=cfs,
                scale=scale or 0.5)


def is_mat(g):
    return g[0] == "M"


class Problem:
    def __init__(self, s):
        self.s = s
        self.dt = DT[s["dtype"]]
        self.r = gens.rng(s["seed"])
        self.groups = {}
        self.opt = []
        self.aux = []
        self.values = {}  # name -> float64 array in theseus layout, as rounded to dtype
        for i, v in enumerate(s["vars"]):
            self._new(f"x{i}", v["g"], v["b"])
            self.opt.append(f"x{i}")
        for i, a in enumerate(s["aux"]):
            self._new(f"t{i}", a["g"], a["b"])
            self.aux.append(f"t{i}")
        for i, w in enumerate(s["scal"]):
            n = f"w{i}"
            self.groups[n] = "W%d" % w["n"]
            self.values[n] = self.draw(n, self.bs(w["b"]), zero=w["zero"])
            self.aux.append(n)
        for i, c in enumerate(s["cfs"]):
            if c["rob"]:
                n = f"r{i}"
                self.groups[n] = "R1"
                self.values[n] = np.full((1, 1), c["rob"]["r"])
                self.values[n] = self._round(self.values[n])
                self.aux.append(n)
                if c["rob"]["loss"] == "gm":
                    n = f"u{i}"
                    self.groups[n] = "R1"
                    self.values[n] = self._round(np.full((1, 1), 1.7))
                    self.aux.append(n)

    def bs(self, flag):
        return self.s["B"] if flag else 1

    def _round(self, a):
        return torch.tensor(a, dtype=self.dt).double().numpy()

    def _new(self, name, g, b):
        self.groups[name] = g
        self.values[name] = self.draw(name, self.bs(b))

    def draw(self, name, n, zero=0, rng=None):
        """fresh random data (n elements) for the named variable"""
        r = rng if rng is not None else self.r
        g = self.groups[name]
        sc = self.s["scale"]
        if name[0] == "u":
            a = 1 + np.exp(r.normal(size=(n, 1)))
        elif is_mat(g):
            m, d = (int(x) for x in g[1:].split("x"))
            a = r.normal(size=(n, m, d))
        elif g[0] == "W":
            a = np.exp(r.normal(size=(n, int(g[1:]))) * 0.5)
            if zero:
                a[r.integers(0, n)] = 0.0
                if int(g[1:]) > 1 and n > 1:
                    a[r.integers(0, n), 0] = 0.0
        else:
            a = np.stack([ref.to_data(g, ref.exp(g, r.normal(size=ref.dof(g)) * sc)) for _ in range(n)])
        return self._round(a)

    def tensor(self, a, dtype=None):
        return torch.tensor(a, dtype=dtype or self.dt)

    def build(self, names=None, values=None):
        """fresh variables, weights, cost functions and an objective"""
        s, vals = self.s, values or self.values
        V = {}
        for n, g in self.groups.items():
            t = self.tensor(vals[n])
            if n[0] == "x" or (n[0] == "t" and not is_mat(g)):
                V[n] = cls(g)(tensor=t, name=n)
            else:
                V[n] = th.Variable(t, name=n)
        W = []
        for i, w in enumerate(s["scal"]):
            C = th.ScaleCostWeight if w["kind"] == "scale" else th.DiagonalCostWeight
            W.append(C(V[f"w{i}"], name=f"weight{i}"))
        unit = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=self.dt), name="unit_w"), name="unit")
        obj = th.Objective(dtype=self.dt)
        cfs = []
        for i, c in enumerate(s["cfs"]):
            cf = self.make_cf(i, V, unit if c["w"] is None else W[c["w"]["i"]])
            cfs.append(cf)
            obj.add(cf)
        self.V, self.W, self.cfs = V, W, cfs
        return obj

    def make_cf(self, i, V, w):
        c = self.s["cfs"][i]
        v = [V[f"x{k}"] for k in c["v"]]
        a = [V[f"t{k}"] for k in c["a"]]
        name = f"cf{i}"
        inner = name if not c["rob"] else name + "_in"
        k = c["kind"]
        if k == "local":
            cf = th.Local(v[0], a[0], w, name=inner)
        elif k == "between":
            cf = th.Between(v[0], v[1], a[0], w, name=inner)
        elif k == "auto":
            cf = th.AutoDiffCostFunction(v, [f_sq, f_sq2, f_hard][c["f"]], v[0].dof(), cost_weight=w, aux_vars=a, name=inner)
        elif k == "auto2":
            f = f_pair if ref.is_vec(self.s["vars"][c["v"][0]]["g"]) else f_lie
            cf = th.AutoDiffCostFunction(v, f, v[0].dof(), cost_weight=w, aux_vars=a, name=inner)
        elif k == "mix":
            cf = th.AutoDiffCostFunction(v, f_mix, 2, cost_weight=w, aux_vars=a, name=inner)
        else:
            cf = Lin(v, a[0], a[1], w, name=inner)
        if c["rob"]:
            loss = LOSSES[c["rob"]["loss"]]
            if c["rob"]["loss"] == "gm":
                cf = th.GNCRobustCostFunction(cf, loss, V[f"r{i}"], V[f"u{i}"],
                                              flatten_dims=bool(c["rob"]["flatten"]), name=name)
            else:
                cf = th.RobustCostFunction(cf, loss, V[f"r{i}"], flatten_dims=bool(c["rob"]["flatten"]), name=name)
        return cf

    # ------------------------------------------------------------------ reference
    def el(self, vals, n, b):
        a = vals[n]
        return a[b if a.shape[0] > 1 else 0]

    def raw_error(self, i, vals, b, over=None):
        """unweighted error of cost function i for batch element b (numpy)"""
        c = self.s["cfs"][i]

        def get(n):
            if over and n in over:
                return over[n]
            g = self.groups[n]
            e = self.el(vals, n, b)
            return e if is_mat(g) else ref.from_data(g, e)

        x = [get(f"x{k}") for k in c["v"]]
        a = [get(f"t{k}") for k in c["a"]]
        g = self.s["vars"][c["v"][0]]["g"]
        k = c["kind"]
        if k == "local":
            return ref.log(g, ref.compose(g, ref.inv(g, a[0]), x[0]))
        if k == "between":
            d = ref.compose(g, ref.inv(g, x[0]), x[1])
            return ref.log(g, ref.compose(g, ref.inv(g, a[0]), d))
        if k == "auto":
            if c["f"] == 2:
                return 4 * np.sin(2 * x[0]) + x[0] ** 2 - 3 * a[0]
            return x[0] + 0.3 * x[0] ** 2 - a[0] if c["f"] == 0 else np.sin(0.5 * x[0]) + 2 * x[0] - a[0]
        if k == "auto2":
            if ref.is_vec(g):
                return x[0] - 2 * x[1] + 0.2 * x[0] * x[1] - a[0]
            return ref.log(g, ref.compose(g, ref.inv(g, x[0]), x[1])) - a[0]
        if k == "mix":
            e = -a[0]
            for j, (q, y) in enumerate(zip(c["v"], x)):
                d = np.asarray(ref.to_data(self.s["vars"][q]["g"], y)).reshape(-1)
                e = e + mix_coef(j, len(d)) @ d
            return e
        return a[0] @ np.concatenate(x) - a[1]

    def weight(self, i, vals, b):
        w = self.s["cfs"][i]["w"]
        return 1.0 if w is None else self.el(vals, f"w{w['i']}", b)

    def loss(self, i, sq, vals, b, slope=False):
        c = self.s["cfs"][i]["rob"]
        r = math.exp(self.el(vals, f"r{i}", b)[0])
        if c["loss"] == "huber":
            if slope:
                return np.where(sq > r, np.sqrt(r / np.maximum(sq, r)), 1.0)
            return np.where(sq > r, 2 * np.sqrt(r * sq) - r, sq)
        if c["loss"] == "welsch":
            return np.exp(-sq / r) if slope else r - r * np.exp(-sq / r)
        mu = self.el(vals, f"u{i}", b)[0]
        if slope:
            return (mu * r) ** 2 / (mu * r + sq) ** 2
        return mu * r * sq / (mu * r + sq)

    def error(self, i, vals, b):
        """what Objective.error reports for cost function i"""
        c = self.s["cfs"][i]
        e = self.raw_error(i, vals, b) * self.weight(i, vals, b)
        if not c["rob"]:
            return e
        if c["rob"]["flatten"]:
            return np.sqrt(self.loss(i, e**2, vals, b))
        return np.ones_like(e) * np.sqrt(self.loss(i, (e**2).sum(), vals, b) / len(e))

    def batch(self, vals):
        return max(v.shape[0] for v in vals.values())

    def all_errors(self, vals=None):
        vals = vals or self.values
        n = self.batch(vals)
        return np.stack([np.concatenate([self.error(i, vals, b) for i in range(len(self.s["cfs"]))]) for b in range(n)])

    def row_slices(self):
        out, k = [], 0
        for i in range(len(self.s["cfs"])):
            d = len(self.raw_error(i, self.values, 0))
            out.append(slice(k, k + d))
            k += d
        return out

    def linear_system(self, vals, b, order, rescaled=True):
        """(J, e) of batch element b with columns ordered as `order` (names): weighted, robust-rescaled"""
        cols, k = {}, 0
        for n in order:
            d = ref.dof(self.groups[n])
            cols[n] = slice(k, k + d)
            k += d
        Js, es = [], []
        for i, c in enumerate(self.s["cfs"]):
            e0 = self.raw_error(i, vals, b)
            w = self.weight(i, vals, b) * np.ones(len(e0))
            J = np.zeros((len(e0), k))
            for n in dict.fromkeys(f"x{q}" for q in c["v"]):
                g = self.groups[n]
                x = ref.from_data(g, self.el(vals, n, b))
                J[:, cols[n]] += ref.num_jac(
                    g, x, lambda y: self.raw_error(i, vals, b, {n: y}), "R%d" % len(e0))
            e = w * e0
            J = w[:, None] * J
            if c["rob"]:
                if c["rob"]["flatten"]:
                    s = np.sqrt(self.loss(i, e**2, vals, b, True))
                else:
                    s = np.ones(len(e)) * math.sqrt(self.loss(i, (e**2).sum(), vals, b, True))
                e, J = s * e, s[:, None] * J
            Js.append(J)
            es.append(e)
        return np.concatenate(Js), np.concatenate(es)

    def near_pi(self, vals, margin=0.3):
        """some logarithm argument is close to pi (errors discontinuous there)"""
        for i, c in enumerate(self.s["cfs"]):
            g = self.s["vars"][c["v"][0]]["g"]
            if ref.is_vec(g) or c["kind"] == "mix":
                continue
            for b in range(self.batch(vals)):
                e = self.raw_error(i, vals, b)
                if c["kind"] == "auto2":
                    e = e + ref.from_data("R%d" % len(e), self.el(vals, f"t{c['a'][0]}", b))
                from .geomops import angle_of
                if angle_of(g, e) > math.pi - margin:
                    return True
        return False
