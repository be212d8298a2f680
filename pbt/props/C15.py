"""Scale invariance: the model of the groups is the model of the vertices, aggregated."""
import contextlib
import io
import warnings

import numpy as np

from .. import core, mgen, stats
from ..core import Target
from ..ggen import st

PROP = "C15"
RULE = (
    "random scale-invariant ensembles (plain and layered) and random partitions of their "
    "vertices into groups; the ensemble of the groups, with summed fitnesses and the same "
    "parameter, is compared with what the ensemble of the vertices implies: absence of all "
    "links between two groups (read off the model's answers), expected links and degrees of "
    "the groups, likelihood of graphs of groups, fitted parameter, merging in several "
    "steps, frequency of links between groups in sampled graphs; non-trivial: a group of 2 "
    "vertices, 2 groups and 2 distinct probabilities in (0, 1)"
)


def case_strategy(mo, nmax=7):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), nmin=2, nmax=nmax, lmax=3,
                                 kinds=("float", "float", "int"), moderate=True))
        n = m["n"]
        G = draw(s.integers(1, min(n, 4)))
        m["groups"] = mgen.cyc([draw(s.integers(0, G - 1)) for _ in range(min(n, 7))], n, 1)
        m["groups"][draw(s.integers(0, n - 1))] = G - 1
        m["merge"] = draw(s.lists(s.integers(0, 2), min_size=4, max_size=4))
        m["A"] = [draw(s.integers(0, 1)) for _ in range(16)]
        m["seed"] = draw(s.integers(0, 2**32 - 1))
        m["frac"] = draw(s.integers(1, 19)) / 20
        return m

    return build()


def table(m, n, what):
    """Link probabilities as the model's own answers imply them: the share of
    each vertex in the neighbourhood of each other, times the expected degree."""
    share = core.dense(what, core.sut(what, m.expected_av_nn_property, np.eye(n), ndir="out",
                                      selfloops=True))
    deg = core.dense(what, core.sut(what, m.expected_out_degree))
    return (share.T * deg).T


def coarse_of(case, groups, G):
    """The ensemble of the groups."""
    g = np.array(groups)
    x, y = mgen.arrays(case)

    def fold(a):
        r = np.zeros((G,) + a.shape[1:], dtype=a.dtype)
        np.add.at(r, g, a)
        return r.tolist()

    c = dict(case, n=G, x=fold(x), y=fold(y), sl=True)
    return c


def check(case, backend):
    micro = dict(case, sl=True)
    g = np.array(case["groups"])
    G = int(g.max()) + 1
    n = case["n"]
    what = "%s %s" % (backend, mgen.NAMES[case["model"]])
    coarse = coarse_of(micro, g, G)
    a, b = mgen.build(micro, backend), mgen.build(coarse, backend)
    P, Q = table(a, n, what), table(b, G, what + " of groups")
    core.require(np.all((P >= -1e-12) & (P <= 1 + 1e-12)), "%s: probabilities %s" % (what, P))
    want = np.zeros((G, G))
    with np.errstate(all="ignore"):
        lg = np.log1p(-np.clip(P, 0, 1))
    for i in range(n):
        for j in range(n):
            want[g[i], g[j]] += lg[i, j]
    want = -np.expm1(want)
    tol = dict(rtol=1e-7, atol=1e-9)
    core.close(what + ": link probability of groups with summed fitness, against the vertices",
               Q, want, **tol)
    core.close(what + ": expected links between groups",
               core.sut("expected_num_edges", b.expected_num_edges), want.sum(), **tol)
    und, out, inn = mgen.degrees(want)
    for name, w in (("expected_degree", und), ("expected_out_degree", out),
                    ("expected_in_degree", inn)):
        core.close("%s: %s of groups" % (what, name), core.sut(name, getattr(b, name)), w, **tol)
    # graphs of groups
    for A in (np.zeros((G, G)), np.ones((G, G)), np.resize(case["A"], (G, G)).astype(float)):
        with np.errstate(all="ignore"):
            v = np.where(A != 0, want, 1 - want)
        if v.min() < 1e-6:
            continue
        core.close("%s: log_likelihood of the graph of groups %s" % (what, A.tolist()),
                   core.sut("log_likelihood", b.log_likelihood, A), np.log(v).sum(),
                   rtol=1e-6, atol=1e-6)
    # no link at all: the same event, whatever its probability
    e = [core.dense(what, core.sut("log_likelihood", m.log_likelihood, np.zeros((k, k))))
         for m, k in ((a, n), (b, G))]
    core.close("%s: log_likelihood of the empty graph, groups against vertices" % what, e[1],
               e[0], rtol=1e-7, atol=1e-9)
    # groups of groups
    h = np.array([case["merge"][k] for k in range(G)])
    h = np.unique(h, return_inverse=True)[1]
    H = int(h.max()) + 1
    R = table(mgen.build(coarse_of(coarse, h, H), backend), H, what)
    S = table(mgen.build(coarse_of(micro, h[g], H), backend), H, what)
    core.close(what + ": aggregating in two steps", R, S, **tol)
    check_fit(case, micro, coarse, backend, what)


def check_fit(case, micro, coarse, backend, what):
    """The groups fitted to what the vertices imply have the same parameter."""
    if mgen.is_multi(case):
        return
    x, y = mgen.arrays(coarse)
    z = np.outer(x.astype(float), y.astype(float))
    top = (z > 0).sum()
    if not top:
        return
    kw = mgen.kwargs(coarse)
    del kw["param"]
    E = case["frac"] * top
    m = mgen.construct(coarse, backend, (), dict(kw, num_edges=E))
    core.sut("fit()", m.fit)
    d = float(np.asarray(m.param)[0])
    # the vertices with this parameter
    a = mgen.build(dict(micro, d=d), backend)
    P = table(a, case["n"], what)
    g = np.array(case["groups"])
    G = coarse["n"]
    with np.errstate(all="ignore"):
        lg = np.log1p(-np.clip(P, 0, 1))
    L = np.zeros((G, G))
    for i in range(case["n"]):
        for j in range(case["n"]):
            L[g[i], g[j]] += lg[i, j]
    core.close("%s: links between groups implied by the vertices at the parameter fitted to "
               "the groups" % what, (-np.expm1(L)).sum(), E, rtol=1e-6, atol=1e-8)


def check_samples(case, backend):
    micro = dict(case, sl=True)
    g = np.array(case["groups"])
    G = int(g.max()) + 1
    n = case["n"]
    m = mgen.build(micro, backend)
    b = mgen.build(coarse_of(micro, g, G), backend)
    what = "%s %s" % (backend, mgen.NAMES[case["model"]])
    Q = np.clip(table(b, G, what), 0, 1)
    core.seed_all(case["seed"])
    S = case.get("S", 200)
    F = np.zeros((G, n))
    F[g, np.arange(n)] = 1
    X = np.zeros((S, G * G))
    for k in range(S):
        h = core.sut("sample()", m.sample)
        A = core.dense("A", core.sut("adjacency_matrix", h.adjacency_matrix, weighted=False))
        X[k] = (F.dot(A.astype(float)).dot(F.T) > 0).ravel()
    Q = np.where(Q < 1e-12, 0, np.where(Q > 1 - 1e-12, 1, Q)).ravel()
    # the borders are settled elsewhere
    live = (Q > 0) & (Q < 1)
    if live.any():
        stats.check_binary(what + " aggregated to groups", X[:, live], Q[live])


def classify(case):
    nt, tags = mgen.classify(dict(case, sl=True))
    g = case["groups"]
    return nt and max(g) > 0 and len(set(g)) < len(g), tags + ["groups:%d" % (max(g) + 1)]


TARGETS = []
for b in ("dense", "sparse", "local"):
    for mo in ("inv", "minv"):
        TARGETS.append(Target(
            "aggregate-%s-%s" % (b, mo), lambda mo=mo: case_strategy(mo),
            lambda c, b=b: check(c, b), classify, quick=60 if b == "local" else 400,
            thorough=1500 if b == "local" else 10000, group="%s-%s" % (b, mo)))
        if b != "local":
            TARGETS.append(Target(
                "samples-%s-%s" % (b, mo), lambda mo=mo: case_strategy(mo, nmax=6),
                lambda c, b=b: check_samples(c, b), classify, quick=40, thorough=1000,
                group="%s-%s" % (b, mo)))
