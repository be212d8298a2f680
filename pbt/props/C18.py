"""Measures of whole graphs: pagerank and trophic depth."""
import numpy as np

from .. import core, ggen
from ..core import Target
from ..ggen import st
from ..mgen import cyc

PROP = "C18"
RULE = (
    "random graphs of the four classes and both backends (unweighted, integer and real "
    "weights, dangling vertices, self loops, repeated and reciprocal links); pagerank "
    "(weighted or not, random damping) is compared with the stationary distribution "
    "obtained by solving the linear system, trophic depth (random sizes of the "
    "connection to the final node) with the solution of its defining equations, both "
    "with tight tolerances, and under default tolerances within the error these allow; "
    "non-trivial: at least 2 vertices, 2 distinct links and one of {repeated link, "
    "reciprocal link, self loop, 3 links}"
)
ASSUMPTIONS = ["trophic depth: at least a tenth of the strength of each vertex with links "
               "goes to the final node, so that the iteration converges geometrically"]


def case_strategy(kind):
    s = st()

    @s.composite
    def build(draw):
        c = draw(ggen.graph_case(nmax=9))
        k = min(9, len(c["ids"]))
        c["opt"] = {"weighted": draw(s.booleans()),
                    "alpha": draw(s.sampled_from([0.85, 0.5, 0.1, 0.95, 0.0])),
                    "fdt": draw(s.sampled_from([None] * 4 + ["int64", "uint8", "float32"])),
                    "final": cyc([draw(s.integers(1, 40)) / 8 for _ in range(k)], len(c["ids"])),
                    "fzero": cyc([draw(s.integers(0, 4)) == 0 for _ in range(k)],
                                 len(c["ids"]), 1)}
        return c

    return build()


def pagerank(M, alpha):
    n = len(M)
    s = M.sum(axis=1, keepdims=True)
    T = np.where(s > 0, M / np.where(s > 0, s, 1), 1.0 / n)
    return np.linalg.solve(np.eye(n) - alpha * T.T, np.full(n, (1 - alpha) / n))


def check_pagerank(case, backend):
    from graph_ensembles import lib

    g = ggen.build(case, backend)
    ref = ggen.Ref(case, g)
    a, w = case["opt"]["alpha"], case["opt"]["weighted"]
    before = core.dense("adjacency", g.adjacency_matrix(directed=True, weighted=True)).copy()
    want = pagerank(ref.matrix(True, w), a)
    got = core.sut("pagerank(tight)", lib.pagerank, g, alpha=a, weighted=w, tol=1e-13,
                   max_iter=5000)
    core.close("pagerank(alpha=%s, weighted=%s)" % (a, w), got, want, rtol=1e-8, atol=1e-10)
    core.close("sum of pagerank", np.sum(got), 1.0, rtol=1e-9)
    # defaults: damping 0.85, weighted, steps below 1e-6 (or 100 steps)
    got = core.sut("pagerank()", lib.pagerank, g)
    err = max(1e-6 * ref.n * 0.85 / 0.15, 2 * 0.85 ** 100) + 1e-12
    core.close("pagerank()", got, pagerank(ref.matrix(True, True), 0.85), rtol=0, atol=err)
    after = core.dense("adjacency", g.adjacency_matrix(directed=True, weighted=True))
    core.equal("adjacency after pagerank", after, before)


def check_trophic(case, backend):
    from graph_ensembles import lib

    g = ggen.build(case, backend)
    ref = ggen.Ref(case, g)
    W = ref.matrix(True, True)
    out = W.sum(axis=1)
    n = ref.n
    f = np.array(case["opt"]["final"])
    f = np.where((out == 0) & np.array(case["opt"]["fzero"]), 0.0, np.maximum(f, out / 8))
    fdt = case["opt"].get("fdt")
    if fdt:
        f = np.ceil(f)
        f = f.astype(fdt) if f.max(initial=0) < 250 else f.astype(np.int64)
    before = f.copy()
    s = out + f
    want = np.zeros(n)
    k = s > 0
    # depth = 1 + mean depth of where the strength goes (the final node has depth 0)
    A = np.eye(n)
    b = np.zeros(n)
    A[k] -= W[k] / s[k][:, None]
    b[k] = 1.0
    want = np.linalg.solve(A, b)
    got = core.sut("trophic_depth(tight)", lib.trophic_depth, g, f, max_iter=5000, tol=1e-12)
    core.close("trophic_depth(final=%s)" % f.tolist(), got, want, rtol=1e-8, atol=1e-9)
    core.equal("the sizes handed to trophic_depth", f, before)
    c = float((out[k] / s[k]).max()) if k.any() else 0.0
    got = core.sut("trophic_depth()", lib.trophic_depth, g, f)
    top = np.abs(want).max() + np.abs(f).max()
    core.close("trophic_depth()", got, want, rtol=0,
               atol=max(1e-3 * c / (1 - c), c ** 100 * top) * 1.01 + 1e-9)


TARGETS = []
for b in ("dense", "sparse"):
    TARGETS += [
        Target("pagerank-" + b, lambda: case_strategy("p"),
               (lambda c, b=b: check_pagerank(c, b)), ggen.classify, 700, 20000, group=b + "p"),
        Target("trophic-" + b, lambda: case_strategy("t"),
               (lambda c, b=b: check_trophic(c, b)), ggen.classify, 700, 20000, group=b + "t"),
    ]
