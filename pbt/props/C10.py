"""Log likelihood of graphs under an ensemble."""
import itertools

import numpy as np

from .. import core, mgen
from ..core import Target
from ..ggen import st

PROP = "C10"
SPARK = ("like",)
RULE = (
    "random fully specified ensembles and random graphs (links drawn inside and "
    "outside the support of the ensemble) handed over in every accepted form "
    "(dense arrays of several types, sparse arrays of several formats with and "
    "without stored zeros, lists of layers, graph objects); the answer is compared "
    "with the sum of log probabilities over all pairs, and for ensembles of at "
    "most 3 vertices the probabilities of all graphs must add up to one; "
    "non-trivial: 2 distinct link probabilities in (0,1) and a graph with and "
    "without links"
)


def forms(multi):
    f = ["bool", "int", "float", "weighted", "csr", "csc", "coo", "lil", "csr_matrix",
         "stored zeros", "unsorted", "graph", "layered graph", "repeated coo",
         "repeated csr", "uint8", "int8", "float32", "csr uint8"]
    if multi:
        f += ["T:bool", "T:int", "T:float", "T:list", "T:list coo", "T:list zeros",
              "T:graph", "T:uint8", "T:list uint8"] * 2
    return f


def case_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), nmax=5, nmin=1, lmax=3,
                                 kinds=("float", "float", "float", "int")))
        form = draw(s.sampled_from(forms(mgen.is_multi(m))))
        n, L = m["n"], m.get("L", 1)
        size = n * n * (L if form.startswith("T") else 1)
        return {
            "m": m,
            "form": form,
            "A": [draw(s.integers(0, 1)) for _ in range(min(size, 75))],
            "inside": draw(s.sampled_from([True, True, True, True, False, "but one"])),
            "odd": draw(s.integers(0, 40)),
            "sl": draw(s.sampled_from([None, None, True, False])),
            "diag": draw(s.integers(0, 7)) == 0,
        }

    return build()


def links(case):
    """The graph of the case, as array."""
    m = case["m"]
    n = m["n"]
    T = case["form"].startswith("T")
    # (in large graphs the pattern is repeated, out of step with the rows)
    A = np.resize(case["A"], (m["L"], n, n) if T else (n, n))
    if A.size > len(case["A"]):
        A = A ^ np.resize(case["A"][::-1] + [1, 0], A.shape)
    sl = m["sl"] if case["sl"] is None else case["sl"]
    if not sl and not case.get("diag"):
        A[..., np.arange(n), np.arange(n)] = 0
    if case["inside"]:
        lp, lq, lps, lqs = mgen.logs(m)
        if T:
            lp, lq = lps, lqs
        A = mgen.possible(A, lp, lq, sl, case["odd"] if case["inside"] == "but one" else None)
        if not sl and case.get("diag"):
            A[..., n - 1, n - 1] = 1
    return A


def hand_over(A, form, backend, what):
    import pandas as pd
    import scipy.sparse as sp

    if form in ("bool", "T:bool"):
        return A.astype(bool)
    if form in ("int", "T:int"):
        return A.astype(np.int64)
    if form in ("float", "T:float"):
        return A.astype(np.float64)
    if form in ("uint8", "int8", "float32", "T:uint8"):
        return A.astype(form.replace("T:", ""))
    if form == "csr uint8":
        return sp.csr_array(A.astype(np.uint8))
    if form == "T:list uint8":
        return [sp.csr_array(B.astype(np.uint8)) for B in A]
    if form == "weighted":
        return A * 0.25
    if form in ("csr", "csc", "coo", "lil"):
        return getattr(sp, form + "_array")(A.astype(float))
    if form == "csr_matrix":
        return sp.csr_matrix(A)
    if form == "stored zeros":
        return mgen.explicit_zeros(A.astype(float))
    if form == "unsorted":
        return mgen.unsorted_csr(A.astype(float))
    if form.startswith("repeated"):
        # each link is stored twice
        i, j = np.nonzero(A)
        if form.endswith("coo"):
            return sp.coo_array((np.full(2 * len(i), 0.5), (np.tile(i, 2), np.tile(j, 2))),
                                shape=A.shape)
        ptr = np.concatenate([[0], np.cumsum(2 * A.astype(int).sum(axis=1))])
        return sp.csr_array((np.full(2 * len(i), 0.5), np.repeat(j, 2), ptr), shape=A.shape)
    if form == "T:list":
        return [sp.csr_array(B) for B in A]
    if form == "T:list coo":
        return [sp.coo_array(B) for B in A]
    if form == "T:list zeros":
        return [mgen.explicit_zeros(B) for B in A]
    from .. import ggen

    gm = ggen.module(backend)
    n = A.shape[-1]
    v = pd.DataFrame({"id": list(range(n))})
    if form == "graph":
        i, j = np.nonzero(A)
        e = pd.DataFrame({"s": i, "d": j, "w": np.ones(len(i))})
        return core.sut("DiGraph", gm.DiGraph, v, e, v_id="id", src="s", dst="d",
                        weight="w")
    if form == "layered graph":
        # projected by the graph itself: links of one or both of two layers
        B = np.array([A * (np.arange(A.size).reshape(A.shape) % 3 != k) for k in (1, 2)])
        A = B
    k, i, j = np.nonzero(A)
    e = pd.DataFrame({"l": k, "s": i, "d": j})
    return core.sut("MultiDiGraph", gm.MultiDiGraph, v, e, v_id="id", src="s", dst="d",
                    edge_label="l")


def check(case, backend):
    mc = case["m"]
    A = links(case)
    form = case["form"]
    if form == "T:graph":
        # a graph object only knows labels which occur
        if not all(B.any() for B in A):
            form = "T:int"
    if form == "layered graph" and mgen.is_multi(mc):
        form = "graph"  # (its layers would have to be those of the ensemble)
    m = mgen.build(mc, backend)
    g = hand_over(A, form, backend, "")
    kw = {} if case["sl"] is None else {"selfloops": case["sl"]}
    what = "%s %s.log_likelihood(%s as %s%s)" % (
        backend, mgen.NAMES[mc["model"]], A.tolist() if A.size < 200 else A.shape, form,
        ", selfloops=%s" % case["sl"] if kw else "")
    got = core.sut(what, m.log_likelihood, g, **kw)
    got = core.dense(what, got)
    want = mgen.loglike(mc, A, selfloops=case["sl"])
    sl = mc["sl"] if case["sl"] is None else case["sl"]
    if not sl and np.any(np.diagonal(A, axis1=-2, axis2=-1)):
        # self loops in an ensemble without: impossible, or left out of the sum
        if np.isneginf(got) or mc["model"] == "rand":
            want = -np.inf
    rel, ab = 1e-8, 1e-8 * max(1.0, A.size / 100)
    core.close(what, got, want, rtol=rel, atol=ab)


def check_total(case, backend):
    """Probabilities of all graphs add up to one."""
    mc = case["m"]
    n = mc["n"]
    m = mgen.build(mc, backend)
    pos = [(i, j) for i in range(n) for j in range(n) if i != j or mc["sl"]]
    tot = 0.0
    for bits in itertools.product((0, 1), repeat=len(pos)):
        A = np.zeros((n, n))
        for b, (i, j) in zip(bits, pos):
            A[i, j] = b
        v = float(core.dense("like", core.sut("log_likelihood(%s)" % A.tolist(),
                                              m.log_likelihood, A)))
        core.require(not np.isnan(v) and v <= 1e-12,
                     "log_likelihood(%s) is %s" % (A.tolist(), v))
        tot += np.exp(v)
    core.close("sum of the probabilities of all graphs", tot, 1.0, rtol=1e-7)


def check_project(case, backend):
    """The probability of a graph is that of all its labelled versions."""
    mc = case["m"]
    n, L = mc["n"], mc["L"]
    m = mgen.build(mc, backend)
    pos = [(i, j) for i in range(n) for j in range(n) if i != j or mc["sl"]]
    A = np.zeros((n, n))
    for b, (i, j) in zip(case["A"], pos):
        A[i, j] = b
    tot = 0.0
    cells = [(k, i, j) for k in range(L) for (i, j) in pos if A[i, j]]
    for bits in itertools.product((0, 1), repeat=len(cells)):
        T = np.zeros((L, n, n))
        for b, c in zip(bits, cells):
            T[c] = b
        if np.array_equal(T.sum(axis=0) > 0, A > 0):
            tot += np.exp(float(core.dense("like", core.sut(
                "log_likelihood(tensor)", m.log_likelihood, T))))
    one = np.exp(float(core.dense("like", core.sut(
        "log_likelihood(matrix)", m.log_likelihood, A))))
    core.close("probability of %s summed over labelled versions" % A.tolist(), tot, one,
               rtol=1e-7, atol=1e-9)


def total_case(mo):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), big=False, nmin=2, nmax=3, lmax=2,
                                 kinds=("float",)))
        if m["n"] == 3:
            m["sl"] = False
        return {"m": m, "A": [draw(s.integers(0, 1)) for _ in range(9)]}

    return build()


def classify(case):
    nt, tags = mgen.classify(case["m"])
    tags.append("form:" + case["form"])
    A = links(case)
    if np.isneginf(mgen.loglike(case["m"], A, case["sl"])):
        tags.append("impossible graph")
    return nt and A.any() and not A.all(), tags


def classify_total(case):
    return mgen.classify(case["m"])


TARGETS = []
for b in ("dense", "sparse"):
    for mo in mgen.MODELS:
        grp = "%s-%s" % (b, mo if mo != "rand" else "fit")
        TARGETS.append(Target(
            "like-%s-%s" % (b, mo),
            lambda mo=mo: case_strategy(mo),
            lambda c, b=b: check(c, b),
            classify,
            quick=500,
            thorough=15000,
            group=grp,
        ))
        TARGETS.append(Target(
            "total-%s-%s" % (b, mo),
            lambda mo=mo: total_case(mo),
            lambda c, b=b: check_total(c, b),
            classify_total,
            quick=40,
            thorough=1000,
            group=grp,
        ))
        if mo in ("mfit", "minv"):
            TARGETS.append(Target(
                "project-%s-%s" % (b, mo),
                lambda mo=mo: total_case(mo),
                lambda c, b=b: check_project(c, b),
                classify_total,
                quick=40,
                thorough=1000,
                group=grp,
            ))
