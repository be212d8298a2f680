"""Ensembles conditioned on an observed coarse-grained graph."""
import contextlib
import io
import itertools
import warnings

import numpy as np

from .. import core, ggen, mgen, stats
from ..core import Target
from ..ggen import st
from ..mgen import cyc
from . import C10, C11

PROP = "C13"
RULE = (
    "random fitnesses, partitions into groups and observed graphs between the groups "
    "(in several array formats) with parameters from 0 (limit of one link per "
    "observed link) up; expected links and degrees, likelihoods, samples (binary and "
    "weighted) and fits are compared with the distribution obtained by conditioning "
    "the unconditional one on the observed graph, group pair by group pair; every "
    "sample must aggregate to exactly the observed graph, and weights shared out from "
    "observed weights must add up to these; likelihoods of all compatible graphs of "
    "small ensembles must add up to one; non-trivial: an observed link with 2 pairs "
    "of distinct positive probability"
)


def table(draw, k, M):
    t = [[draw() for _ in range(k)] for _ in range(k)]
    return cyc([cyc(row, M, 1) for row in t], M, 1)


def case_strategy(dzero=True, small=False, nmax=7):
    s = st()

    @s.composite
    def build(draw):
        n = draw(s.integers(2, 4 if small else nmax))
        M = draw(s.integers(1, min(3, n)))
        rep, mep = n, M
        if not small and draw(s.integers(0, 39)) == 0:
            # many vertices and groups
            n = draw(s.sampled_from([24, 130]))
            M = draw(s.sampled_from([M, 20, n]))
        if M > 3:
            k = draw(s.integers(1, 11))
            gr = [(k * i) % M for i in range(M)] + [i % M for i in range(n - M)]
            if len(set(gr)) < M:
                gr = list(range(M - 1, -1, -1)) + [i % M for i in range(n - M)]
        else:
            gr = cyc([draw(s.integers(0, M - 1)) for _ in range(rep)], n, 1)
            gr[draw(s.integers(0, n - 1))] = M - 1
        f = s.one_of(s.just(0.0), s.integers(0, 16).map(lambda v: v / 8), s.floats(0.01, 20.0),
                     s.integers(1, 8).map(float))
        xdt = draw(s.sampled_from([None, None, None, None, "int64", "uint8", "float32"]))
        if xdt:
            f = s.one_of(s.integers(0, 16), s.integers(0, 200)).map(float)
        d = s.one_of(s.sampled_from([1.0, 0.1, 10.0, 1e-3, 1e-3, 1e-7, 1e-40, 1e5, np.inf]
                                    + ([0.0, 0.0, 1e-9, 1e-14] if dzero else [])),
                     s.floats(1e-3, 5.0))
        case = {
            "n": n, "M": M, "groups": gr, "sl": draw(s.booleans()),
            "x": cyc([draw(f) for _ in range(rep)], n),
            "y": cyc([draw(f) for _ in range(rep)], n, 1),
            "d": draw(d),
            "obs": table(lambda: draw(s.integers(0, 1)), mep, M),
            "w": table(lambda: draw(s.integers(1, 40)) / 4, mep, M),
            "fmt": draw(s.sampled_from(["dense", "int", "csr", "csc", "coo", "zeros",
                                        "unsorted"])),
            "xdt": xdt,
            "pform": draw(s.sampled_from([None, None, None, "float", "int", "int array",
                                          "numpy"])),
            "gdt": draw(s.sampled_from(["int64", "uint8", "int32"])),
            "seed": draw(s.integers(0, 2**32 - 1)),
            "A": draw(s.integers(0, 2 ** (rep * rep) - 1)),
        }
        if not small and M < 4 and draw(s.integers(0, 1)):
            # several groups, most of them linked, and no vertex without fitness
            if M == 1:
                case["M"] = M = mep = 2
                case["groups"] = gr = [i % 2 for i in range(n)]
            case["x"] = [v or 1.0 for v in case["x"]]
            case["y"] = [v or 2.0 for v in case["y"]]
            off = draw(s.integers(0, 2 * M * M))
            case["obs"] = [[int(M * a + b != off) for b in range(M)] for a in range(M)]
            case["w"] = table(lambda: draw(s.integers(1, 40)) / 4, M, M)
        if not xdt and draw(s.integers(0, 2)):
            # groups of quite different size
            size = [draw(s.sampled_from([1.0, 0.03, 1e-3, 1e-5])) for _ in range(mep)]
            for k in ("x", "y"):
                case[k] = [v * size[a % mep] for v, a in zip(case[k], gr)]
        if np.isinf(case["d"]):
            # any other observation has probability zero
            case["obs"] = [[1] * M for _ in range(M)]
        return case

    return build()


class Ref:
    """Conditional distribution, block by block."""

    def __init__(self, case, d=None, sl=None):
        self.n, self.M = case["n"], case["M"]
        self.sl = case["sl"] if sl is None else sl
        d = case["d"] if d is None else d
        x, y = np.array(case["x"]), np.array(case["y"])
        g = np.array(case["groups"])
        self.g = g
        Z = np.outer(x, y)
        if not self.sl:
            np.fill_diagonal(Z, 0)
        self.Z, self.d = Z, d
        n, M = self.n, self.M
        # an observed link needs at least one possible pair
        self.obs = np.zeros((M, M))
        self.zab = np.zeros((M, M))
        for a in range(M):
            for b in range(M):
                blk = Z[np.ix_(g == a, g == b)]
                self.zab[a, b] = blk.sum()
                if case["obs"][a][b] and np.any(blk > 0):
                    self.obs[a, b] = 1
        with np.errstate(all="ignore"):
            self.dZ = np.where(Z > 0, d * Z, 0.0)
            self.P = -np.expm1(-self.dZ)
            self.Pab = -np.expm1(-np.where(self.zab > 0, d * self.zab, 0.0))
        C = np.zeros((n, n))
        J = np.zeros((n, n))  # both directions, given the observation
        for i in range(n):
            for j in range(n):
                C[i, j] = self.cond(i, j)
        for i in range(n):
            for j in range(n):
                if g[i] != g[j]:
                    J[i, j] = C[i, j] * C[j, i]
                elif i != j:
                    J[i, j] = C[i, j] * self.P[j, i]
        self.C = C
        self.U = C + C.T - J
        np.fill_diagonal(self.U, np.diag(C))

    def cond(self, i, j):
        a, b = self.g[i], self.g[j]
        if not self.obs[a, b] or self.Z[i, j] == 0:
            return 0.0
        if self.d == 0:
            return self.Z[i, j] / self.zab[a, b]
        return self.P[i, j] / self.Pab[a, b]

    def aggregate(self, A):
        B = np.zeros((self.M, self.M))
        for i, j in zip(*np.nonzero(A)):
            B[self.g[i], self.g[j]] += A[i, j]
        return B

    def loglike(self, A):
        if not np.array_equal(self.aggregate(A) > 0, self.obs > 0):
            return -np.inf
        v = 0.0
        for a in range(self.M):
            for b in range(self.M):
                if not self.obs[a, b]:
                    continue
                blk = np.ix_(self.g == a, self.g == b)
                with np.errstate(all="ignore"):
                    t = np.where(A[blk] != 0, np.log(self.P[blk]), -self.dZ[blk])
                v += t.sum() - np.log(self.Pab[a, b])
        return v if not np.isnan(v) else -np.inf


def observed(case, r):
    A = r.obs * np.array(case["w"])
    if case["fmt"] == "dense":
        return A
    if case["fmt"] == "int":
        return r.obs.astype(np.int64)
    return mgen.as_format(A, case["fmt"])


def weights(case, r):
    return r.obs if case["fmt"] == "int" else r.obs * np.array(case["w"])


def make(case, r, **over):
    import graph_ensembles.sparse.models as mod

    kw = dict(
        num_vertices=case["n"],
        prop_out=mgen.typed(np.array(case["x"]), case.get("xdt")),
        prop_in=mgen.typed(np.array(case["y"]), case.get("xdt")),
        groups=np.array(case["groups"], dtype=case["gdt"]), adj=observed(case, r),
        selfloops=case["sl"], param=np.array([float(case["d"])]),
    )
    v = mgen.scalar(case["d"], case.get("pform"))
    if v is not None:
        kw["param"] = v
    kw.update(over)
    kw = {k: v for k, v in kw.items() if v is not None}
    return core.sut("ConditionalInvariantModel(...)", mod.ConditionalInvariantModel, **kw)


def check_expected(case):
    r = Ref(case)
    m = make(case, r)
    tol = dict(rtol=1e-7 if case["d"] < 1e-6 else 1e-9, atol=1e-11)
    core.close("expected_num_edges()", core.sut("expected_num_edges", m.expected_num_edges),
               r.C.sum(), **tol)
    for name, want in (("expected_out_degree", r.C.sum(axis=1)),
                       ("expected_in_degree", r.C.sum(axis=0)),
                       ("expected_degree", r.U.sum(axis=1))):
        for rc in (False, True):
            core.close(name + "()", core.sut(name, getattr(m, name), recompute=rc), want, **tol)


def bits(case):
    n = case["n"]
    if n > 20:
        return np.resize([float(c) for c in format(case["A"], "b")], (n, n))
    return np.array([(case["A"] >> k) & 1 for k in range(n * n)], dtype=float).reshape(n, n)


def check_like(case):
    r = Ref(case)
    m = make(case, r)
    n = case["n"]
    # a graph of the support: drop what is impossible, complete what is missing
    A = np.where((r.Z > 0) & (r.obs[np.ix_(r.g, r.g)] > 0), bits(case), 0)
    B = A.copy()
    for a in range(r.M):
        for b in range(r.M):
            if r.obs[a, b] and not A[np.ix_(r.g == a, r.g == b)].any():
                i, j = [int(k[0]) for k in np.nonzero(
                    (r.Z > 0) & np.outer(r.g == a, r.g == b))]
                B[i, j] = 1
    raw = bits(case)
    if not case["sl"]:
        np.fill_diagonal(raw, 0)
    if np.isinf(case["d"]):
        # the only graph of the ensemble has every possible link
        full = np.where((r.Z > 0) & (r.obs[np.ix_(r.g, r.g)] > 0), 1.0, 0.0)
        B = full
    # (terms of the size of d z are added and taken away)
    tol = 1e-7 * max(1, n / 10)
    if np.isfinite(case["d"]):
        tol += 1e-14 * n * case["d"] * r.zab.sum()
    for X in (B, A, raw):
        what = "log_likelihood(%s)" % (X.astype(int).tolist() if n < 20 else X.shape,)
        got = core.dense(what, core.sut(what, m.log_likelihood, X))
        core.close(what, got, r.loglike(X), rtol=1e-7, atol=tol)
    for fmt in ("csr", "coo", "zeros"):
        core.close("log_likelihood(%s)" % fmt,
                   core.sut("log_likelihood(%s)" % fmt, m.log_likelihood,
                            mgen.as_format(B, fmt)), r.loglike(B), rtol=1e-7, atol=tol)
    h = C10.hand_over(B, "graph", "sparse", "")
    core.close("log_likelihood(graph)", core.sut("log_likelihood(graph)", m.log_likelihood, h),
               r.loglike(B), rtol=1e-7, atol=tol)
    core.rejects("a graph of another size", m.log_likelihood, np.zeros((n + 1, n + 1)))


def check_total(case):
    r = Ref(case)
    m = make(case, r)
    n = case["n"]
    pos = [(i, j) for i in range(n) for j in range(n)
           if r.Z[i, j] > 0 and r.obs[r.g[i], r.g[j]]]
    if len(pos) > 9:
        return
    tot = 0.0
    for b in itertools.product((0, 1), repeat=len(pos)):
        A = np.zeros((n, n))
        for v, (i, j) in zip(b, pos):
            A[i, j] = v
        tot += np.exp(float(core.dense("like", core.sut("log_likelihood", m.log_likelihood, A))))
    core.close("sum of the probabilities of all compatible graphs", tot, 1.0, rtol=1e-6)


def draw(case, r, m, S, **kw):
    if case["n"] > 20:
        S = 3000 // case["n"]
    X = np.empty((S, case["n"], case["n"]))
    core.seed_all(case["seed"])
    what = "sample(%s)" % ", ".join("%s=%s" % (k, v if isinstance(v, (str, bool)) else "...")
                                    for k, v in kw.items())
    g = None
    for t in range(S):
        g = core.sut(what, m.sample, **kw)
        X[t] = core.dense(what, g.adj)
        if t == 0:
            C11.names(what, g, None, False, case["n"], 1)
            C11.measures(what, g, ggen.Ref.of(X[t][None], weighted="weights" in kw))
    core.require(np.all(np.isfinite(X)) and np.all(X >= 0), "%s: weights not positive" % what)
    return what, X


def joint(what, X, r):
    S = len(X)
    B = (X != 0).astype(float)
    for t in range(S):
        core.require(np.array_equal(r.aggregate(B[t]) > 0, r.obs > 0),
                     "%s aggregates to %s although %s was observed (sample %s)" % (
                         what, (r.aggregate(B[t]) > 0).astype(int).tolist(),
                         r.obs.astype(int).tolist(), B[t].astype(int).tolist()))
    n = r.n
    C = np.minimum(r.C, 1.0)
    F = B.reshape(S, -1)
    c = C.ravel()
    core.require(not np.any(F[:, c == 0]), "%s: impossible link drawn" % what)
    stats.check_counts(what + ": samples with link ", F.sum(axis=0), S * c, S * c * (1 - c))
    if S > 1:
        # same link in successive samples
        h = S // 2
        q = c**2
        stats.check_counts(what + ": links present in two successive samples",
                           (F[0 : 2 * h : 2] * F[1 : 2 * h : 2]).sum(axis=0), h * q,
                           h * q * (1 - q))
    # pairs of links: same block or different ones
    idx = [(i, j) for i in range(n) for j in range(n) if C[i, j] > 0]
    for k1, (i, j) in enumerate(idx if len(idx) <= 60 else ()):
        for (u, v) in idx[:k1]:
            if (r.g[i], r.g[j]) == (r.g[u], r.g[v]):
                q = C[i, j] * r.P[u, v]
            else:
                q = C[i, j] * C[u, v]
            q = min(q, 1.0)
            stats.check_counts("%s: samples with both %s and %s" % (what, (i, j), (u, v)),
                               np.array((B[:, i, j] * B[:, u, v]).sum()), np.array(S * q),
                               np.array(S * q * (1 - q)))


def check_sample(case):
    sl = case.get("opt")
    r = Ref(case, sl=sl)
    m = make(case, r)
    kw = {} if sl is None else {"selfloops": sl}
    what, X = draw(case, r, m, 250, **kw)
    core.require(np.all((X == 0) | (X == 1)), "%s is not binary" % what)
    joint(what, X, r)


def check_weights(case):
    r = Ref(case)
    m = make(case, r)
    x, y = np.array(case["x"]), np.array(case["y"])
    kw = {"weights": case["how"]}
    if case["given"]:
        # strengths with the same total, positive where links are possible
        dt = {"int": np.int64, "float": np.float64}.get(case["given"], case["given"])
        so = np.array([(1 + (7 * i) % 5) * (40 if dt == "uint8" else 1)
                       for i in range(case["n"])], dtype=dt)
        si = so[::-1].copy()
        kw.update(out_strength=so, in_strength=si)
    else:
        so, si = x, y
        if case["how"] == "cremb":
            tot = max(x.sum(), 1e-300)
            if abs(1 - y.sum() / tot) > 1e-3:
                if x.sum() > 0:
                    core.rejects("sample() with strengths of different total", m.sample, **kw)
                return
            if abs(1 - y.sum() / tot) > 1e-9:
                return
    what, X = draw(case, r, m, 150, **kw)
    joint(what, X, r)
    so, si = so.astype(float), si.astype(float)
    if case["how"] == "wagg":
        w = weights(case, r)
        for t in range(len(X)):
            core.close(what + " weights added up by observed link", r.aggregate(X[t]), w,
                       rtol=1e-9)
            B = X[t] != 0
            want = np.zeros(X[t].shape)
            for a in range(r.M):
                for b in range(r.M):
                    k = np.outer(r.g == a, r.g == b) & B
                    if k.any():
                        s = np.outer(so, si) * k
                        want += s / s.sum() * w[a, b]
            core.close(what + " shares of the observed weights", X[t], want, rtol=1e-9)
        return
    with np.errstate(all="ignore"):
        mean = np.outer(so, si) / so.sum() / r.C
    idx = np.nonzero(X)
    U = -np.expm1(-X[idx] / mean[idx[1:]])
    from .C12 import uniform

    uniform(what, U, [])


def check_fit(case):
    r = Ref(case)
    lo = float(r.obs.sum())
    hi = float(((r.Z > 0) & (r.obs[np.ix_(r.g, r.g)] > 0)).sum())
    E = max(0.0, lo + case["frac"] * (hi - lo))
    m = make(case, r, param=None, num_edges=E)
    kw = {} if case["x0"] is None else {"x0": case["x0"]}
    with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        try:
            m.fit(**kw)
        except Exception as exc:
            raise core.Violation("fit(%s) to %g links raised %s: %s" % (
                kw, E, type(exc).__name__, str(exc)[:300])) from None
    warned = any("converge" in str(w.message) for w in rec)
    conv = bool(np.all(m.solver_output.converged))
    core.require(conv == (not warned), "converged is %s, warned: %s" % (conv, warned))
    d = float(np.asarray(m.param)[0])
    core.require(d >= 0, "parameter %s" % d)
    e = float(Ref(case, d=d).C.sum())
    if conv:
        core.close("expected links after fit(%s)" % kw, e, E, rtol=5e-9, atol=1e-10)
        core.close("expected_num_edges() after fit(%s)" % kw,
                   core.sut("expected_num_edges", m.expected_num_edges), E, rtol=5e-9, atol=1e-10)
    elif hi > lo and 0.02 <= case["frac"] <= 0.95:
        raise core.Violation("fit(%s) to %g links (between %g and %g) did not converge: "
                             "parameter %g expects %g" % (kw, E, lo, hi, d, e))


def check_nn(case):
    """Neighbour averages: probability weighted sums over expected degrees."""
    r = Ref(case)
    if case.get("saturate", True):
        # every observable link observed, with probability one: nothing to condition on
        pos = r.zab[r.zab > 0]
        case = dict(case, d=40.0 / pos.min() if len(pos) else 1.0,
                    obs=[[1] * case["M"] for _ in range(case["M"])])
        r = Ref(case)
    m = make(case, r)
    prop = np.array(case["prop"])
    for ndir, W in (("out", r.C), ("in", r.C.T), ("out-in", r.U)):
        W = W.copy()
        deg = W.sum(axis=1)
        with np.errstate(all="ignore"):
            want = np.where(deg > 0, (W @ prop) / deg, 0.0)
        what = "expected_av_nn_property(ndir=%s)" % ndir
        core.close(what, core.sut(what, m.expected_av_nn_property, prop, ndir=ndir,
                                  selfloops=case["sl"]), want, rtol=1e-8, atol=1e-10)


def classify(case):
    r = Ref(case)
    tags = ["selfloops:%s" % case["sl"], "format:" + case["fmt"], "groups:%d" % case["M"]]
    if case["d"] == 0:
        tags.append("parameter 0")
    elif case["d"] < 1e-6:
        tags.append("tiny parameter")
    if not np.array_equal(r.obs, r.obs.T):
        tags.append("asymmetric observation")
    if np.any(np.diag(r.obs)):
        tags.append("observed link within a group")
    nt = False
    for a in range(r.M):
        for b in range(r.M):
            if r.obs[a, b]:
                u = np.unique(r.Z[np.ix_(r.g == a, r.g == b)])
                nt |= (u > 0).sum() >= 2
    return bool(nt), tags


def with_extra(extra, **kw):
    s = st()

    @s.composite
    def build(draw):
        c = draw(case_strategy(**kw))
        for k, v in extra(s).items():
            c[k] = draw(v)
        return c

    return build()


def weighted_case():
    s = st()

    @s.composite
    def build(draw):
        c = draw(with_extra(lambda s: {
            "how": s.sampled_from(["wagg", "cremb"]),
            "given": s.sampled_from([None, "float", "int"] * 2 + ["uint8", "int32"])}, nmax=5))
        if c["how"] == "cremb" and not c["given"] and draw(s.integers(0, 4)):
            c["y"] = c["x"][1:] + c["x"][:1]
        return c

    return build()


TARGETS = [
    Target("cond-expected", case_strategy, check_expected, classify, 700, 20000, group="c1"),
    Target("cond-like", lambda: case_strategy(dzero=False), check_like, classify, 500, 15000,
           group="c2"),
    Target("cond-total", lambda: case_strategy(dzero=False, small=True), check_total, classify,
           60, 2000, group="c2"),
    Target("cond-sample", lambda: with_extra(
        lambda s: {"opt": s.sampled_from([None, None, True, False])}, nmax=5),
        check_sample, classify, 120, 3000, group="c3"),
    Target("cond-weights", weighted_case, check_weights, classify, 120, 3000, group="c4"),
    Target("cond-fit", lambda: with_extra(
        lambda s: {"frac": s.one_of(s.floats(0.02, 0.95), s.sampled_from([0.0, 1.0, -0.2, 1.3])),
                   "x0": s.sampled_from([None, None, 0, 1, 1.0, 1e-9, 1e4])}),
        check_fit, classify, 500, 15000, group="c5"),
    Target("cond-nn", lambda: with_extra(
        lambda s: {"prop": s.lists(s.floats(-10, 10), min_size=7, max_size=7)}).map(
            lambda c: dict(c, prop=cyc(c["prop"], c["n"]) if c["n"] > 7 else c["prop"][:c["n"]])),
        check_nn, classify, 200, 4000, group="c5"),
]
