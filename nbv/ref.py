"""Independent references: coefficients derived from first principles or from
the literature (SciPy's tableaux for the adaptive pairs), never from nbkode."""

from fractions import Fraction as Fr

import numpy as np
from scipy.integrate._ivp import dop853_coefficients as D8
from scipy.integrate._ivp import rk as _sprk


# ---- linear multistep methods -------------------------------------------
def _solve(M, b):
    n = len(M)
    M = [list(r) + [v] for r, v in zip(M, b)]
    for i in range(n):
        p = next(r for r in range(i, n) if M[r][i] != 0)
        M[i], M[p] = M[p], M[i]
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i and M[r][i] != 0:
                M[r] = [x - M[r][i] * y for x, y in zip(M[r], M[i])]
    return [M[i][n] for i in range(n)]


def _quad_weights(nodes):
    """w with sum_j w_j p(nodes_j) = int_0^1 p for all polynomials of degree < len."""
    k = len(nodes)
    return _solve([[Fr(x) ** d for x in nodes] for d in range(k)], [Fr(1, d + 1) for d in range(k)])


def adams_bashforth(k):
    """beta_j for f_n, f_{n-1}, ..., f_{n-k+1}."""
    return _quad_weights([-j for j in range(k)])


def adams_moulton(k):
    """(beta_new, [beta for f_n, ..., f_{n-k+2}]): k nodes, order k."""
    w = _quad_weights([1 - j for j in range(k)])
    return w[0], w[1:]


def bdf(k):
    """(beta_new, [alpha for y_n, ..., y_{n-k+1}]):
    y_{n+1} = sum alpha_j y_{n-j} + h beta f_{n+1}."""
    # Differentiate the interpolant through nodes 1, 0, -1, ..., 1-k at x = 1.
    nodes = [1 - j for j in range(k + 1)]
    c = _solve(
        [[Fr(x) ** d for x in nodes] for d in range(k + 1)],
        [Fr(d) * Fr(1) ** max(d - 1, 0) for d in range(k + 1)],
    )
    # sum c_j y_j = h f_{n+1}
    return 1 / c[0], [-x / c[0] for x in c[1:]]


class LMM:
    """y_new = sum_j alpha_j y_{n-j} + h (beta_new f_new + sum_j beta_j f_{n-j})"""

    def __init__(self, alpha, beta, beta_new, order):
        self.alpha = np.array([float(a) for a in alpha])
        self.beta = np.array([float(b) for b in beta])
        self.beta_new = float(beta_new)
        self.order = order
        self.implicit = self.beta_new != 0.0
        self.start = order if not alpha or len(alpha) == 1 else len(alpha)
        # number of past points in use
        self.k = max(len(alpha), len(beta), 1)

    def known(self, h, ys, fs):
        """The part that does not depend on the new point; most recent last."""
        out = np.zeros_like(ys[-1])
        for j, a in enumerate(self.alpha):
            out = out + a * ys[-1 - j]
        for j, b in enumerate(self.beta):
            out = out + h * b * fs[-1 - j]
        return out

    def scale(self, h, ys, fs):
        out = np.zeros_like(ys[-1])
        for j, a in enumerate(self.alpha):
            out = out + np.abs(a * ys[-1 - j])
        for j, b in enumerate(self.beta):
            out = out + np.abs(h * b * fs[-1 - j])
        return out


def _ab(k):
    return LMM([1], adams_bashforth(k), 0, k)


def _am(k):
    bn, b = adams_moulton(k)
    return LMM([1], b, bn, k)


def _bdf(k):
    bn, a = bdf(k)
    return LMM(a, [], bn, k)


MULTISTEP = {}
for _k in range(1, 6):
    MULTISTEP[f"AdamsBashforth{_k}"] = _ab(_k)
    MULTISTEP[f"AdamsMoulton{_k}"] = _am(_k)
for _k in range(1, 7):
    MULTISTEP[f"BDF{_k}"] = _bdf(_k)
MULTISTEP["ForwardEuler"] = _ab(1)
MULTISTEP["BackwardEuler"] = _am(1)
# Number of starting values a k-step implementation needs before its first step.
START = {}
for _n, _m in MULTISTEP.items():
    if _n.startswith("AdamsMoulton"):
        START[_n] = max(_m.order - 1, 1)
    elif _n in ("ForwardEuler", "BackwardEuler"):
        START[_n] = 1
    else:
        START[_n] = _m.order


# ---- Runge-Kutta ---------------------------------------------------------
class RK:
    def __init__(self, C, A, B, order):
        self.C = [float(c) for c in C]
        self.A = [[float(a) for a in row] for row in A]
        self.B = [float(b) for b in B]
        self.order = order

    def stages(self, rhs, t, y, f, h):
        K = [np.array(f, dtype=float)]
        for c, row in zip(self.C[1:], self.A[1:]):
            dy = np.zeros_like(y)
            for a, k in zip(row, K):
                if a:
                    dy = dy + a * k
            K.append(np.array(rhs(t + c * h, y + h * dy), dtype=float))
        return K

    def step(self, rhs, t, y, f, h):
        K = self.stages(rhs, t, y, f, h)
        inc = np.zeros_like(y)
        for b, k in zip(self.B, K):
            if b:
                inc = inc + b * k
        return y + h * inc, K


_2, _3, _6, _8 = Fr(1, 2), Fr(1, 3), Fr(1, 6), Fr(1, 8)
RK_FIXED = {
    # Runge's midpoint rule
    "Runge2": RK([0, _2], [[], [_2]], [0, 1], 2),
    # Runge's method of order 3 (Hairer, Norsett, Wanner, table II.1.1)
    "Runge3": RK([0, _2, 1, 1], [[], [_2], [0, 1], [0, 0, 1]], [_6, 4 * _6, 0, _6], 3),
    # Heun's method of order 3
    "Heun3": RK([0, _3, 2 * _3], [[], [_3], [0, 2 * _3]], [Fr(1, 4), 0, Fr(3, 4)], 3),
    # the classical method
    "RungeKutta4": RK([0, _2, _2, 1], [[], [_2], [0, _2], [0, 0, 1]], [_6, 2 * _6, 2 * _6, _6], 4),
    # Kutta's 3/8 rule
    "RungeKutta3_8": RK(
        [0, _3, 2 * _3, 1], [[], [_3], [-_3, 1], [1, -1, 1]], [_8, 3 * _8, 3 * _8, _8], 4
    ),
}
FIXED = list(RK_FIXED) + list(MULTISTEP)


class Adaptive:
    """One embedded pair with its error norm and dense output (SciPy tables)."""

    def __init__(self, name, C, A, B, err_order, order, P=None):
        self.name = name
        self.rk = RK(C, [list(row[:i]) for i, row in enumerate(A)], B, order)
        self.err_order = err_order
        self.order = order
        self.exponent = 1 / (err_order + 1)
        self.P = P

    def attempt(self, rhs, t, y, f, h, atol, rtol):
        """-> y_new, f_new, K (with the last stage), error norm"""
        y_new, K = self.rk.step(rhs, t, y, f, h)
        f_new = np.array(rhs(t + h, y_new), dtype=float)
        K = np.array(K + [f_new])
        scale = atol + rtol * np.maximum(np.abs(y), np.abs(y_new))
        n = y.size
        if self.name == "DOP853":
            e5 = float(np.sqrt(np.mean((h * (K.T @ D8.E5) / scale) ** 2)))
            e3 = float(np.sqrt(np.mean((h * (K.T @ D8.E3) / scale) ** 2)))
            if e5 == 0:  # as in SciPy, also when e3 is not zero
                err = 0.0
            else:
                err = e5 / np.sqrt(1 + (0.1 * e3 / e5) ** 2)
        else:
            E = _sprk.RK23.E if self.name == "RungeKutta23" else _sprk.RK45.E
            err = float(np.sqrt(np.mean((h * (K.T @ E) / scale) ** 2)))
        return y_new, f_new, K, err

    def dense(self, rhs, t0, y0, f0, t1, y1, f1):
        """The dense output of the step (t0, y0) -> (t1, y1) as a function."""
        h = t1 - t0
        _, K = self.rk.step(rhs, t0, y0, f0, h)
        K = np.array(K + [np.array(f1, dtype=float)])
        if self.name == "DOP853":
            ns = 12
            KX = np.empty((16, y0.size))
            KX[: ns + 1] = K
            for s in range(ns + 1, 16):
                dy = (KX[:s].T @ D8.A[s, :s]) * h
                KX[s] = rhs(t0 + D8.C[s] * h, y0 + dy)
            F = np.empty((7, y0.size))
            dlt = y1 - y0
            F[0] = dlt
            F[1] = h * K[0] - dlt
            F[2] = 2 * dlt - h * (f1 + K[0])
            F[3:] = h * (D8.D @ KX)

            def u(t):
                x = (t - t0) / h
                y = np.zeros_like(y0)
                for i, c in enumerate(F[::-1]):
                    y = (y + c) * (x if i % 2 == 0 else 1 - x)
                return y + y0

            return u
        Q = K.T @ self.P

        def u(t):
            x = (t - t0) / h
            return y0 + h * (Q @ np.array([x ** (i + 1) for i in range(Q.shape[1])]))

        return u


ADAPTIVE = {
    "RungeKutta23": Adaptive("RungeKutta23", _sprk.RK23.C, _sprk.RK23.A, _sprk.RK23.B, 2, 3, _sprk.RK23.P),
    "RungeKutta45": Adaptive("RungeKutta45", _sprk.RK45.C, _sprk.RK45.A, _sprk.RK45.B, 4, 5, _sprk.RK45.P),
    "DOP853": Adaptive("DOP853", D8.C[:12], D8.A[:12, :12], D8.B, 7, 8),
}


def hermite(t0, y0, f0, t1, y1, f1):
    def u(t):
        h = t1 - t0
        s = (t - t0) / h
        return (
            (1 + 2 * s) * (1 - s) ** 2 * y0
            + s * (1 - s) ** 2 * h * f0
            + s**2 * (3 - 2 * s) * y1
            + s**2 * (s - 1) * h * f1
        )

    return u


ALL = FIXED + list(ADAPTIVE)
IMPLICIT = [n for n in MULTISTEP if MULTISTEP[n].implicit]
EXPLICIT_FIXED = [n for n in FIXED if n not in IMPLICIT]

GROUPS = {
    "Adams-Bashforth": [f"AdamsBashforth{k}" for k in range(1, 6)],
    "Adams-Moulton": [f"AdamsMoulton{k}" for k in range(1, 6)],
    "BDF": [f"BDF{k}" for k in range(1, 7)],
    "Euler": ["ForwardEuler", "BackwardEuler"],
    "Runge-Kutta": ["Runge2", "Runge3", "Heun3", "RungeKutta4", "RungeKutta3_8",
                    "RungeKutta23", "RungeKutta45", "DOP853"],
}
