"""Expected number of links and expected degrees of an ensemble."""
import numpy as np

from .. import core, mgen
from ..core import Target

PROP = "C07"
SPARK = ("expected",)
RULE = (
    "random fully specified ensembles (random, fitness, scale invariant and their "
    "multi-layer versions, dense and sparse backends, zero fitnesses, zero and "
    "large parameters, every accepted storage format) are asked for expected link "
    "numbers and degrees, which are compared with sums over an explicit matrix of "
    "link probabilities; non-trivial: at least 2 vertices and 2 distinct link "
    "probabilities strictly between 0 and 1 (for the random model p in (0,1))"
)


def compare(what, m, case):
    P, T = mgen.probs(case)
    # Links of one layer may be so rare that all sums are tiny: compare relative to
    # them. Composed probabilities are given the rounding of a composition.
    full = dict(rtol=1e-9, atol=1e-300)
    comp = dict(rtol=1e-9, atol=1e-12 * P.size)
    tol = full if T is None else comp
    core.close(what + " expected_num_edges()",
               core.sut("expected_num_edges()", m.expected_num_edges), P.sum(), **tol)
    und, out, inn = mgen.degrees(P)
    core.close(what + " expected_degree()",
               core.sut("expected_degree()", m.expected_degree), und, **comp)
    core.close(what + " expected_out_degree()",
               core.sut("expected_out_degree()", m.expected_out_degree), out, **tol)
    core.close(what + " expected_in_degree()",
               core.sut("expected_in_degree()", m.expected_in_degree), inn, **tol)
    if T is not None:
        core.close(
            what + " expected_num_edges_label()",
            core.sut("expected_num_edges_label()", m.expected_num_edges_label),
            T.sum(axis=(1, 2)), **full)
        res = [mgen.degrees(Q) for Q in T]
        for k, name in enumerate(
            ("expected_degree_by_label", "expected_out_degree_by_label",
             "expected_in_degree_by_label")
        ):
            core.close(
                what + " %s()" % name,
                core.sut(name + "()", getattr(m, name)),
                np.array([r[k] for r in res]).T, **(full if k else comp))


def check(case, backend):
    m = mgen.build(case, backend)
    compare("%s %s" % (backend, mgen.NAMES[case["model"]]), m, case)


TARGETS = [
    Target(
        "expected-%s-%s" % (b, mo),
        lambda mo=mo: mgen.model_case(models=(mo,)),
        lambda c, b=b: check(c, b),
        mgen.classify,
        quick=600 if mo != "rand" else 300,
        thorough=15000,
        group="%s-%s" % (b, mo if mo != "rand" else "fit"),
        tshards=1,
    )
    for b in ("dense", "sparse")
    for mo in mgen.MODELS
]
