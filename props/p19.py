import contextlib
import io
import numpy as np
import theseus as th
import torch
from hypothesis import strategies as st

from vlib import gens, opt as O, problems as P, ref
from vlib.core import Skip, Sub, Violation
from vlib.th import close, need, np_

PROPERTY = "P19"
RULE = (
    "A case draws a problem, an optimiser with options, stopping tolerances, a backward mode, tracking flags and whether "
    "gradients are enabled. The reported histories, best solution, statuses, iteration counts and last error are recomputed "
    "from the recorded states with the numpy model; switching tracking on or off must not change the result. Non-trivial: "
    "at least one iteration recorded and (two or more batch elements, early convergence, or a split backward mode)."
)
ASSUMPTIONS = [
    "best_iter is the zero-based iteration whose result was best (0 also when the initial values were best), as the existing tests use it",
    "an adaptive step that is rejected leaves error and state unchanged and is not by itself convergence",
]


@st.composite
def case(draw):
    s = draw(P.spec(anchored=True, max_b=4, max_vars=3, max_cfs=4, single_opt=draw(st.integers(0, 3)) == 0))
    s["scale"] = draw(st.sampled_from([0.05, 0.3, 0.6, 1.0]))
    c = draw(O.config(max_T=10, tols=["zero", "default", "loose", "huge"], modes=["unroll", "unroll", "truncated", "implicit"]))
    flags = draw(st.sampled_from([[1, 1, 1], [1, 1, 1], [1, 0, 1], [0, 1, 1], [1, 1, 0], [0, 0, 1]]))
    return dict(s=s, c=c, flags=flags, layer=draw(st.booleans()), grad=draw(st.booleans()), cb=draw(st.booleans()), verbose=draw(st.integers(0, 3)) == 0,
                leaf=draw(st.booleans()))


def check(q, t):
    s, c = q["s"], q["c"]
    p = P.Problem(s)
    if p.near_pi(p.values):
        raise Skip("near pi")
    f32 = s["dtype"] == "float32"
    B = p.batch(p.values)
    best, eh, sh = q["flags"]
    track = dict(track_best_solution=bool(best), track_err_history=bool(eh), track_state_history=bool(sh))
    calls = []

    def cb(optimizer, info, delta, it):
        with torch.no_grad():
            calls.append((it, np_(info.last_err), np_(optimizer.objective.error_metric())))

    kw = dict(end_iter_callback=cb) if q["cb"] else {}
    if q.get("verbose"):
        kw["verbose"] = True
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            info, fin, obj, opt = O.run(c, p, layer=q["layer"], grad=q["grad"], **track, **kw)
    except RuntimeError as e:
        if "linear optimizer" in str(e):
            raise Skip("singular problem")
        raise
    status = [x.name for x in info.status]
    need(len(status) == B, "one status per batch element")
    if "FAIL" in status:
        raise Skip("singular problem")
    T = c["T"]
    t.label(c["opt"], c["mode"], "tol " + c["tol"], s["dtype"], "grad" if q["grad"] else "no grad")
    for it, le, cur in calls:
        close(le, cur, 1e-6 * (1 + np.abs(cur)) if f32 else 1e-12 * (1 + np.abs(cur)), "last_err seen by the callback")
    # tracking must not change what is computed
    info2, fin2, obj2, _ = O.run(c, p, layer=q["layer"], grad=q["grad"])
    for n in fin:
        need(np.array_equal(fin[n], fin2[n]), f"{n} depends on the tracking flags")
    need([x.name for x in info2.status] == status, "statuses depend on the tracking flags")
    need(info2.best_solution is None and info2.err_history is None and info2.state_history is None,
         "histories reported although tracking is off")
    with torch.no_grad():
        e_fin = np_(obj.error_metric())
    rt = 1e-4 if f32 else 1e-8
    ref_fin = O.half_sq(p, O.with_state(p, p.values, {n: O.bexpand(a, B) for n, a in fin.items()}))
    close(e_fin, ref_fin, rt * (1 + ref_fin), "final objective error")
    close(np_(info.last_err), e_fin, 1e-5 * (1 + e_fin) if f32 else 1e-10 * (1 + e_fin), "last_err")
    if not (eh or sh):
        t.nontrivial(B > 1)
        return
    order = list(fin)
    ab, rl = O.tolerances(c)
    # states
    n_it = None
    if sh:
        states = []
        for n in order:
            need(tuple(info.state_history[n].shape) == (B,) + tuple(obj.optim_vars[n].shape[1:]) + (T + 1,), "state history shape")
        for i in range(T + 1):
            h = {n: np_(info.state_history[n][..., i]) for n in order}
            inf = [np.isinf(a) for a in h.values()]
            if all(a.all() for a in inf):
                rest = [np.isinf(np_(info.state_history[n][..., i:])).all() for n in order]
                need(all(rest), "state history has a hole")
                break
            need(not any(a.any() for a in inf), f"state {i} is only partly recorded")
            states.append(h)
        n_it = len(states) - 1
        for n in order:
            need(np.array_equal(states[0][n], O.bexpand(p.values[n], B)), f"initial state of {n} in the history")
            need(np.array_equal(states[-1][n], O.bexpand(fin[n], B)), f"the last recorded state of {n} is not its final value")
        if any(p.near_pi(O.with_state(p, p.values, h), 0.05) for h in states):
            raise Skip("near pi")
        ref_err = np.stack([O.half_sq(p, O.with_state(p, p.values, h)) for h in states], 1)
    if eh:
        a = np_(info.err_history)
        need(a.shape == (B, T + 1), "error history shape")
        k = int(np.isfinite(a).any(0).sum())
        need(np.isfinite(a[:, :k]).all() and np.isinf(a[:, k:]).all(), f"error history has holes: {a.tolist()}")
        if n_it is not None:
            need(n_it == k - 1, f"{k - 1} errors but {n_it} states recorded")
        n_it = k - 1
        if sh:
            close(a[:, :k], ref_err, rt * (1 + ref_err), "recorded errors vs. errors at the recorded states")
    else:
        a = None
    need(1 <= n_it <= T, f"{n_it} iterations recorded out of {T}")
    t.nontrivial(n_it >= 1 and (B > 1 or n_it < T or c["mode"] != "unroll"))
    if n_it < T:
        t.label("stopped early")
        if c["mode"] == "unroll":
            need(all(x == "CONVERGED" for x in status), f"stopped after {n_it} of {T} iterations with statuses {status}")
    H = a[:, : n_it + 1] if eh else ref_err
    exact = eh
    if eh:
        close(np_(info.last_err), H[:, -1], 0.0 if not f32 else 1e-7 * (1 + H[:, -1]), "last_err vs. last recorded error")
    if best:
        need(info.best_solution is not None and set(info.best_solution) == set(order), "best solution lists every variable")
        for b in range(B):
            h = H[b]
            i = int(np.argmin(h))
            tie = 0.0 if exact else rt * (1 + h[i])
            close(np_(info.best_err)[b], h[i], max(tie, 0.0), f"best_err[{b}]")
            if not exact and len(h) > 1 and (np.sort(h)[1] - h[i]) <= tie * 2:
                continue
            need(int(info.best_iter[b]) == max(i - 1, 0), f"best_iter[{b}] = {int(info.best_iter[b])}, the smallest error is at {i}: {h.tolist()}")
            if sh:
                for n in order:
                    need(np.array_equal(np_(info.best_solution[n])[b], states[i][n][b]), f"best solution of {n}[{b}] is not the state with the smallest error")
        # info reports detached copies
        need(all(not v.requires_grad for v in info.best_solution.values()), "best solution is detached")
    # convergence bookkeeping
    if not eh:
        return
    k_grad = {"unroll": None, "truncated": min(c.get("k", 0), T), "implicit": 1}[c["mode"]]
    for b in range(B):
        ci = int(info.converged_iter[b])
        h = H[b]
        if status[b] == "MAX_ITERATIONS":
            need(ci == -1, f"converged_iter[{b}] = {ci} without convergence")
            if c["mode"] != "unroll":
                continue
            # no accepted iteration met the criterion
            for i in range(1, n_it + 1):
                ok = met(h, H, i, ab, rl)
                if ok and not (c["opt"] in ("lma", "dog") and h[i] == h[i - 1]):
                    raise Violation(f"element {b} met the convergence criterion at iteration {i} but is reported as {status[b]}: {h.tolist()}")
        else:
            need(status[b] == "CONVERGED", f"status {status[b]}")
            need(1 <= ci <= n_it, f"converged_iter[{b}] = {ci}, {n_it} iterations recorded")
            need(met(h, H, ci, ab, rl), f"element {b} reported converged at {ci} but the criterion does not hold there: {h.tolist()}")
            t.label("converged")
            if c["mode"] == "unroll":
                need((h[ci:] == h[ci]).all(), f"element {b} changed after convergence at {ci}: {h.tolist()}")
                for i in range(1, ci):
                    if met(h, H, i, ab, rl) and not (c["opt"] in ("lma", "dog") and h[i] == h[i - 1]):
                        raise Violation(f"element {b} met the criterion at {i}, converged_iter is {ci}: {h.tolist()}")


def met(h, H, i, ab, rl):
    with np.errstate(all="ignore"):
        d = abs(h[i] - h[i - 1])
        return bool(np.abs(H[:, i]).mean() < ab * (1 + 1e-6) or d < ab or d / abs(h[i - 1]) < rl * (1 + 1e-5))


SUBS = [Sub("info", case, check, 500, shards=(8, 8))]
