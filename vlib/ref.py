"""Independent numpy reference for the manifolds (no theseus/torchlie code used).

Elements are homogeneous matrices (float64) for SO2/SE2/SO3/SE3 and plain vectors for R<n>.
Tangent order follows the documentation: SE2 (x, y, theta), SE3 (linear, angular).
"""
import math

import numpy as np
from scipy.linalg import expm
from scipy.spatial.transform import Rotation

GROUPS = ["SO2", "SE2", "SO3", "SE3", "R1", "R2", "R3", "R4", "Point2", "Point3"]
LIE = ["SO2", "SE2", "SO3", "SE3"]


def is_vec(g):
    return g[0] == "R" or g.startswith("Point")


def dof(g):
    if g.startswith("Point"):
        return int(g[5:])
    return {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}.get(g) or int(g[1:])


def skew(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


def hat(g, x):
    x = np.asarray(x, float)
    if g == "SO2":
        return np.array([[0, -x[0]], [x[0], 0.0]])
    if g == "SE2":
        return np.array([[0, -x[2], x[0]], [x[2], 0, x[1]], [0, 0, 0.0]])
    if g == "SO3":
        return skew(x)
    m = np.zeros((4, 4))
    m[:3, :3] = skew(x[3:])
    m[:3, 3] = x[:3]
    return m


def vee(g, m):
    if g == "SO2":
        return np.array([m[1, 0]])
    if g == "SE2":
        return np.array([m[0, 2], m[1, 2], m[1, 0]])
    if g == "SO3":
        return np.array([m[2, 1], m[0, 2], m[1, 0]])
    return np.concatenate([m[:3, 3], [m[2, 1], m[0, 2], m[1, 0]]])


def rot2(a):
    return np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])


def exp(g, x):
    x = np.asarray(x, float)
    if is_vec(g):
        return x.copy()
    if g == "SO2":
        return rot2(x[0])
    if g == "SO3":
        return Rotation.from_rotvec(x).as_matrix()
    m = expm(hat(g, x))
    if g == "SE2":
        m[:2, :2] = rot2(x[2])
    else:
        m[:3, :3] = Rotation.from_rotvec(x[3:]).as_matrix()
    m[-1, :-1] = 0
    m[-1, -1] = 1
    return m


def _V(g, x):
    """V with translation = V @ v, obtained from the matrix exponential."""
    n = 2 if g == "SE2" else 3
    V = np.zeros((n, n))
    for i in range(n):
        y = np.array(x, float)
        y[:n] = 0
        y[i] = 1
        V[:, i] = expm(hat(g, y))[:n, n]
    return V


def log(g, X):
    if is_vec(g):
        return np.array(X, float)
    if g == "SO2":
        return np.array([math.atan2(X[1, 0], X[0, 0])])
    if g == "SO3":
        return Rotation.from_matrix(X).as_rotvec()
    if g == "SE2":
        th = math.atan2(X[1, 0], X[0, 0])
        x = np.array([0, 0, th])
        x[:2] = np.linalg.solve(_V(g, x), X[:2, 2])
        return x
    w = Rotation.from_matrix(X[:3, :3]).as_rotvec()
    x = np.concatenate([np.zeros(3), w])
    x[:3] = np.linalg.solve(_V(g, x), X[:3, 3])
    return x


def log_small(g, X):
    """log for X near the identity, accurate to rounding (used by finite differences)."""
    if is_vec(g):
        return np.array(X, float)
    if g == "SO2":
        return np.array([math.atan2(X[1, 0], X[0, 0])])
    # log(I+E) series, E ~ 1e-4 or smaller
    E = X - np.eye(X.shape[0])
    S, T = np.zeros_like(E), np.eye(X.shape[0])
    for k in range(1, 7):
        T = T @ E
        S += ((-1) ** (k + 1)) / k * T
    return vee(g, S)


def compose(g, a, b):
    return a + b if is_vec(g) else a @ b


def inv(g, a):
    if is_vec(g):
        return -a
    if g in ("SO2", "SO3"):
        return a.T.copy()
    n = a.shape[0] - 1
    r = np.eye(n + 1)
    r[:n, :n] = a[:n, :n].T
    r[:n, n] = -a[:n, :n].T @ a[:n, n]
    return r


def adj(g, a):
    d = dof(g)
    if is_vec(g) or g == "SO2":
        return np.eye(d)
    A = np.zeros((d, d))
    ai = inv(g, a)
    for i in range(d):
        e = np.zeros(d)
        e[i] = 1
        A[:, i] = vee(g, a @ hat(g, e) @ ai)
    return A


def act(g, a, p):
    if g in ("SO2", "SO3"):
        return a @ p
    n = a.shape[0] - 1
    return a[:n, :n] @ p + a[:n, n]


def to_data(g, X):
    """Reference element -> the data layout used by theseus variables (one element)."""
    if is_vec(g):
        return np.array(X, float)
    if g == "SO2":
        return np.array([X[0, 0], X[1, 0]])
    if g == "SE2":
        return np.array([X[0, 2], X[1, 2], X[0, 0], X[1, 0]])
    if g == "SO3":
        return X.copy()
    return X[:3, :].copy()


def from_data(g, d):
    d = np.asarray(d, float)
    if is_vec(g):
        return d.copy()
    if g == "SO2":
        return np.array([[d[0], -d[1]], [d[1], d[0]]])
    if g == "SE2":
        return np.array([[d[2], -d[3], d[0]], [d[3], d[2], d[1]], [0, 0, 1.0]])
    if g == "SO3":
        return d.copy()
    return np.vstack([d, [0, 0, 0, 1.0]])


def num_jac(gin, x, f, gout, eps=1e-5):
    """d/d(xi) of log(f(x)^-1 f(x exp(xi))) at 0 by central differences (matrix dof_out x dof_in)."""
    fx = f(x)
    fi = inv(gout, fx)
    cols = []
    for i in range(dof(gin)):
        e = np.zeros(dof(gin))
        e[i] = eps
        p = log_small(gout, compose(gout, fi, f(compose(gin, x, exp(gin, e)))))
        m = log_small(gout, compose(gout, fi, f(compose(gin, x, exp(gin, -e)))))
        cols.append((p - m) / (2 * eps))
    return np.stack(cols, 1)
