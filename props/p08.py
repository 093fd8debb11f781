import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, problems as P, ref
from vlib.core import Skip, Sub
from vlib.th import close, expect_raise, need

PROPERTY = "P08"
RULE = (
    "A case draws a problem (variables, shared auxiliary data and weights, cost functions of several kinds, "
    "singleton and full batches) and a history of updates and evaluations; after every operation the error "
    "vector, metric, batch size and stored tensors are compared with a numpy model of the data. "
    "Non-trivial: at least one update precedes an evaluation."
)
ASSUMPTIONS = ["rejected updates may have applied some of the given tensors (documented pseudocode); "
               "a later full update must bring the objective back in step"]


@st.composite
def case(draw):
    s = draw(P.spec(single_opt=True))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["update", "update", "update", "error", "error_up", "metric", "rebatch", "mask",
                                  "noarg", "bad", "vec", "unknown"]))
        ops.append(dict(k=k, seed=draw(gens.seeds), frac=draw(st.integers(1, 4)), n=draw(st.integers(1, 4)),
                        kind=draw(st.sampled_from(["shape", "dtype", "ndim", "batch", "rank"]))))
    return dict(s=s, ops=ops, metric=draw(st.integers(0, 2)), vec=draw(st.booleans()))


def metric_abs(e):
    return e.abs().sum(dim=1)


def metric_w(e):
    return (torch.arange(1, e.shape[1] + 1, dtype=e.dtype) * e).sum(dim=1)


def tol_of(dt):
    return 1e-4 if dt == "float32" else 1e-8


def compare(p, obj, vals, what, metric):
    want = p.all_errors(vals)
    if p.near_pi(vals, 0.1):
        raise Skip("relative rotation close to pi")
    tol = tol_of(p.s["dtype"]) * np.maximum(1, np.abs(want).max())
    got = obj.error()
    close(got, want, tol, f"{what}: error vector")
    need(got.dtype == p.dt, "error dtype")
    m = obj.error_metric()
    wm = [0.5 * (want**2).sum(1), np.abs(want).sum(1), (np.arange(1, want.shape[1] + 1) * want).sum(1)][metric]
    need(m.ndim == 1, "error metric is not a batch of scalars")
    close(m, wm, tol * (1 + np.abs(wm).max()) * want.shape[1], f"{what}: error metric")
    same_data(p, vals, what)


def same_data(p, vals, what):
    for n, a in vals.items():
        t = p.V[n].tensor
        need(tuple(t.shape) == a.shape and torch.equal(t, p.tensor(a)), f"{what}: variable {n} does not hold its data")


def subset(p, r, frac):
    names = [n for n in p.values if r.integers(0, 4) < frac]
    return names or [list(p.values)[r.integers(0, len(p.values))]]


def fresh(p, vals, names, r):
    """new data with each variable keeping its batch size"""
    return {n: p.draw(n, vals[n].shape[0], rng=r) for n in names}


def check(c, t):
    p = P.Problem(c["s"])
    obj = p.build()
    if c["metric"]:
        new = th.Objective(dtype=p.dt, error_metric_fn=[None, metric_abs, metric_w][c["metric"]])
        for cf in p.cfs:
            new.add(cf)
        obj = new
    if c["vec"]:
        th.Vectorize(obj)
        t.label("vectorized")
    vals = {n: a.copy() for n, a in p.values.items()}
    need(obj.dim() == p.all_errors(vals).shape[1], "Objective.dim()")
    obj.update()
    need(obj.batch_size == p.batch(vals), f"batch_size {obj.batch_size} for data of batch {p.batch(vals)}")
    compare(p, obj, vals, "initially", c["metric"])
    for q, op in enumerate(c["ops"]):
        r = gens.rng(op["seed"])
        k = op["k"]
        what = f"op {q} ({k})"
        t.label(k)
        if k == "update":
            d = fresh(p, vals, subset(p, r, op["frac"]), r)
            names = list(d)
            r.shuffle(names)
            given = {n: p.tensor(d[n]) for n in names}
            keep = {n: x.clone() for n, x in given.items()}
            obj.update(given)
            need(all(torch.equal(given[n], keep[n]) for n in given), "update modified a caller tensor")
            vals.update(d)
            t.nontrivial()
        elif k == "noarg":
            obj.update()
        elif k == "rebatch":
            # all full-batch variables move to a new batch size; each singleton may become full
            d = {n: p.draw(n, op["n"], rng=r) for n, a in vals.items() if a.shape[0] > 1 or r.integers(0, 2)}
            obj.update({n: p.tensor(a) for n, a in d.items()})
            vals.update(d)
            t.nontrivial()
        elif k == "mask":
            B = p.batch(vals)
            names = [n for n in subset(p, r, op["frac"]) if vals[n].shape[0] == B]
            m = r.integers(0, 2, size=B).astype(bool)
            d = fresh(p, vals, names, r)
            obj.update({n: p.tensor(a) for n, a in d.items()}, batch_ignore_mask=torch.tensor(m))
            for n, a in d.items():
                vals[n] = np.where(m.reshape((-1,) + (1,) * (a.ndim - 1)), vals[n], a)
            t.nontrivial()
        elif k in ("error", "metric", "error_up"):
            d = fresh(p, vals, subset(p, r, op["frac"]), r)
            if k == "error" and op["n"] == 1:  # temporary change of the batch size
                d = {n: p.draw(n, 4 if vals[n].shape[0] > 1 or r.integers(0, 2) else 1, rng=r) for n in vals}
            v2 = dict(vals, **d)
            given = {n: p.tensor(a) for n, a in d.items()}
            want = p.all_errors(v2)
            if p.near_pi(v2, 0.1):
                raise Skip("relative rotation close to pi")
            tol = tol_of(c["s"]["dtype"]) * np.maximum(1, np.abs(want).max())
            if k == "metric":
                got = obj.error_metric(given)
                wm = [0.5 * (want**2).sum(1), np.abs(want).sum(1), (np.arange(1, want.shape[1] + 1) * want).sum(1)][c["metric"]]
                close(got, wm, tol * (1 + np.abs(wm).max()) * want.shape[1], f"{what}: metric of given data")
            else:
                got = obj.error(given, also_update=k == "error_up")
                close(got, want, tol, f"{what}: error of given data")
            if k == "error_up":
                vals = v2
            t.nontrivial()
        elif k == "vec":
            if obj.vectorized:
                obj.disable_vectorization()
            else:
                th.Vectorize(obj)
        elif k == "unknown":
            obj.update({"not_there": torch.zeros(p.batch(vals), 2, dtype=p.dt)})
        else:
            n = list(vals)[r.integers(0, len(vals))]
            a = vals[n]
            kind = op["kind"]
            other = torch.float32 if p.dt == torch.float64 else torch.float64
            if kind == "shape":
                bad = torch.zeros(a.shape[0], a.shape[1] + 1, *a.shape[2:], dtype=p.dt)
            elif kind == "rank":
                bad = torch.zeros(*a.shape, 1, dtype=p.dt)
            elif kind == "ndim":
                bad = torch.zeros(a.shape[0], dtype=p.dt)
            elif kind == "dtype":
                bad = p.tensor(a, other)
            else:
                if not any(v.shape[0] > 1 for m, v in vals.items() if m != n):
                    continue
                bad = p.tensor(p.draw(n, p.batch(vals) + 1, rng=r))
            t.label("bad " + kind)
            expect_raise(lambda: obj.update({n: bad}), f"{what}: update of {n} with a wrong {kind}", ValueError)
            if kind == "batch":
                # documented: data are in place, only the consistency check failed
                obj.update({m: p.tensor(v) for m, v in vals.items()})
        need(obj.batch_size == p.batch(vals), f"{what}: batch_size {obj.batch_size}, data has {p.batch(vals)}")
        compare(p, obj, vals, what, c["metric"])


SUBS = [Sub("history", case, check, 1500, shards=(8, 8))]
