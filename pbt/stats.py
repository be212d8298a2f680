"""Two-sided tests with a guaranteed false-alarm rate.

The bound is Bernstein's inequality for sums of independent variables within one
unit of their mean: it holds for any such sum, no approximation is involved.
"""
import numpy as np

from . import core

ALPHA = 1e-13


def bound(var, alpha=ALPHA, scale=1.0):
    """Deviation exceeded with probability at most alpha."""
    L = np.log(2.0 / alpha)
    b = scale / 3.0
    return b * L + np.sqrt((b * L) ** 2 + 2.0 * np.asarray(var) * L)


def check_counts(what, got, mean, var):
    """got: sums of independent 0/1 variables with the given total mean and
    variance (arrays)."""
    got = np.asarray(got, dtype=float)
    mean = np.asarray(mean, dtype=float)
    dev = np.abs(got - mean)
    bad = dev > bound(np.asarray(var, dtype=float)) + 1e-9 * np.abs(mean)
    if np.any(bad):
        k = np.unravel_index(int(np.argmax(np.where(bad, dev, -1))), got.shape)
        raise core.Violation(
            "%s%s: counted %s, expected %.6g (deviation %.4g, allowed %.4g)"
            % (what, list(map(int, k)) if k else "", got[k], mean[k], dev[k],
               float(bound(np.asarray(var, dtype=float)[k])))
        )


def matchings(shape):
    """Disjoint pairs of cells of an array of layers of an adjacency matrix:
    (name, cells, cells)."""
    L, n, _ = shape
    ix = np.arange(L * n * n).reshape(shape)
    i, j = np.triu_indices(n, 1)
    yield "the two directions of a pair", ix[:, i, j].ravel(), ix[:, j, i].ravel()
    for k in (0, 1):
        yield "neighbouring columns", _pairs(ix, k, 2)[0], _pairs(ix, k, 2)[1]
        yield "neighbouring rows", _pairs(ix, k, 1)[0], _pairs(ix, k, 1)[1]
        if L > 1:
            yield "neighbouring layers", _pairs(ix, k, 0)[0], _pairs(ix, k, 0)[1]


def _pairs(ix, start, axis):
    ix = np.moveaxis(ix, axis, 0)[start:]
    h = ix.shape[0] // 2
    return ix[0 : 2 * h : 2].ravel(), ix[1 : 2 * h : 2].ravel()


def check_binary(what, X, P, shape=None):
    """X: samples x cells of 0/1; P: probability of each cell (independent)."""
    S, m = X.shape
    X = X.astype(np.float64)
    cnt = X.sum(axis=0)
    never, always = P == 0, P == 1
    core.require(not np.any(cnt[never]),
                 "%s: impossible link drawn (cell %s)" % (
                     what, np.flatnonzero(never & (cnt > 0))[:5].tolist()))
    core.require(np.all(cnt[always] == S),
                 "%s: certain link missing (cell %s)" % (
                     what, np.flatnonzero(always & (cnt < S))[:5].tolist()))
    V = P * (1 - P)
    check_counts(what + ": number of samples with link ", cnt, S * P, S * V)
    check_counts(what + ": links in total", np.array(cnt.sum()), np.array(S * P.sum()),
                 np.array(S * V.sum()))
    # cells of equal probability together
    u, inv = np.unique(P, return_inverse=True)
    k = np.bincount(inv)
    check_counts(what + ": links of the class of probability ", np.bincount(inv, cnt),
                 S * k * u, S * k * u * (1 - u))
    # successive samples are independent
    if S >= 2:
        h = S // 2
        both = (X[0 : 2 * h : 2] * X[1 : 2 * h : 2]).sum()
        Q = P**2
        check_counts(what + ": links present in two successive samples", np.array(both),
                     np.array(h * Q.sum()), np.array(h * (Q * (1 - Q)).sum()))
    # different links are independent
    live = np.flatnonzero((P > 0) & (P < 1))
    if S >= 50 and 2 <= len(live) <= 120:
        Y = X[:, live]
        J = Y.T.dot(Y)
        Q = np.outer(P[live], P[live])
        iu = np.triu_indices(len(live), 1)
        check_counts(what + ": joint occurrence of pairs of links ", J[iu], S * Q[iu],
                     S * (Q * (1 - Q))[iu])
    # pairs of links of one kind together: products of centred variables of
    # disjoint pairs are independent, centred and within one unit of zero
    if shape is not None:
        C = X - P
        for name, a, b in matchings(shape):
            if not a.size:
                continue
            got = (C[:, a] * C[:, b]).sum()
            var = S * (V[a] * V[b]).sum()
            if abs(got) > bound(var) + 1e-9 * S * a.size:
                raise core.Violation(
                    "%s: links of %s are not independent: sum of products %.6g, allowed %.6g"
                    % (what, name, got, float(bound(var))))
        # and the same pair in successive samples (disjoint samples)
        h = S // 2
        if h:
            i = np.arange(len(P))
            got = (C[0 : 2 * h : 2] * C[1 : 2 * h : 2])[:, i].sum()
            var = h * (V * V).sum()
            if abs(got) > bound(var) + 1e-9 * S * len(P):
                raise core.Violation(
                    "%s: successive samples are not independent: sum of products %.6g, "
                    "allowed %.6g" % (what, got, float(bound(var))))
