"""Rooted trees and Runge-Kutta order conditions (Butcher), independent of rkopenmdao."""

import functools

import numpy as np


@functools.lru_cache(None)
def trees(order):
    """All rooted trees with `order` nodes as sorted tuples of subtrees."""
    if order == 1:
        return ((),)
    out = set()

    def forests(n, maxi):
        """multisets of trees with n nodes in total"""
        if n == 0:
            yield ()
            return
        for k in range(min(n, maxi), 0, -1):
            for t in trees(k):
                for rest in forests(n - k, k):
                    yield (t,) + rest

    for f in forests(order - 1, order - 1):
        out.add(tuple(sorted(f)))
    return tuple(sorted(out))


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def phi(t, A, c=None):
    """Elementary weight vector; with c given, leaves use c instead of the row sums of A."""
    v = np.ones(A.shape[0])
    for s in t:
        if s == () and c is not None:
            v = v * c
        else:
            v = v * (A @ phi(s, A, c))
    return v


def residual(order, A, b, c=None):
    """Largest violation over all conditions of exactly this order."""
    return max(abs(float(b @ phi(t, A, c)) - 1.0 / gamma(t)) for t in trees(order))


def exact_order(A, b, c=None, tol=1e-9, upto=7):
    p = 0
    while p < upto and residual(p + 1, A, b, c) <= tol:
        p += 1
    return p


def weak_stage_residual(q, A, b, c):
    """max |b^T A^j (c^k/k - A c^(k-1))| for k <= q, j < s."""
    worst = 0.0
    for k in range(1, q + 1):
        tau = c ** k / k - A @ c ** (k - 1)
        v = tau
        for _ in range(A.shape[0]):
            worst = max(worst, abs(float(b @ v)))
            v = A @ v
    return worst
