"""Textbook Kalman filters, written in plain floats / exact fractions, used as references."""
from fractions import Fraction

import numpy as np


class ScalarCV:
    """Constant velocity filter of one coordinate (2x2 matrices written out).

    predict_state() moves the state; the covariance is propagated, with process noise q on both
    diagonal entries, once per measurement update (observed or masked)."""

    def __init__(self, x, r, q, p, c, v, num=float):
        self.x, self.v = num(x), num(0)
        self.r, self.q = num(r), num(q)
        self.P = [[num(p), num(c)], [num(c), num(v)]]

    def predict(self):
        self.x = self.x + self.v

    def update(self, z, observed=True, r=None):
        r = self.r if r is None else r
        (a, b), (c, d) = self.P
        # F P F' + Q with F = [[1, 1], [0, 1]]
        a2, b2, c2, d2 = a + b + c + d + self.q, b + d, c + d, d + self.q
        if observed:
            s = a2 + r
            k0, k1 = a2 / s, c2 / s
            y = z - self.x
            self.x, self.v = self.x + k0 * y, self.v + k1 * y
            self.P = [[(1 - k0) * a2, (1 - k0) * b2], [c2 - k1 * a2, d2 - k1 * b2]]
        else:
            self.P = [[a2, b2], [c2, d2]]


class ClassicCV:
    """Constant velocity filter of one coordinate as in filterpy: Q = diag(1, q), P0 = diag(1, p),
    covariance propagated on every predict, masked measurements leave it alone."""

    def __init__(self, x, r, q, p, num=float):
        self.x, self.v = num(x), num(0)
        self.r, self.q = num(r), num(q)
        self.P = [[num(1), num(0)], [num(0), num(p)]]

    def predict(self):
        self.x = self.x + self.v
        (a, b), (c, d) = self.P
        self.P = [[a + b + c + d + 1, b + d], [c + d, d + self.q]]

    def update(self, z, observed=True):
        if not observed:
            return
        (a, b), (c, d) = self.P
        s = a + self.r
        k0, k1 = a / s, c / s
        y = z - self.x
        self.x, self.v = self.x + k0 * y, self.v + k1 * y
        self.P = [[(1 - k0) * a, (1 - k0) * b], [c - k1 * a, d - k1 * b]]


class Nothing:
    """No filter: the state is the last observed coordinate."""

    def __init__(self, x):
        self.x, self.v = float(x), 0.0

    def predict(self):
        pass

    def update(self, z, observed=True):
        if observed:
            self.x = float(z)


def frac(v):
    return Fraction(v)


def state(filter_, dim_z):
    x = np.asarray(filter_.x, float).ravel()
    return x[:dim_z], x[dim_z:]
