"""Nearest neighbour averages on graphs."""
import numpy as np

from .. import core, ggen
from ..core import Target

PROP = "C03"
RULE = (
    "random graphs of the four classes and both backends with a random vertex "
    "property (one to three dimensional; real, integer, narrow integer, boolean, sparse), every neighbourhood direction, self loops "
    "counted or not, options spoken or left at their defaults; the answer is compared with the plain average over the "
    "neighbours of the reference graph; non-trivial: at least 2 vertices, 2 "
    "distinct links, a non-constant property and one of {self loop, reciprocal "
    "link, repeated link, 3 links}"
)
DIRS = ("out", "in", "out-in")
KINDS = ("float64",) * 4 + ("int64", "int8", "bool", "F", "sparse")
DEFAULTS = {"ndir": "out", "ddir": "out", "selfloops": False}


def as_property(prop, kind, backend):
    """The array of the property in the given kind of storage."""
    if kind == "sparse":
        if backend == "sparse" and prop.ndim == 2:
            import scipy.sparse as sp

            return sp.csr_array(prop)
        return prop
    if kind == "F":
        return np.asfortranarray(prop.astype(np.int64))
    return prop.astype(kind)


def spoken(kw, brief):
    """Options, without those equal to their documented defaults."""
    return {k: v for k, v in kw.items() if not (brief and DEFAULTS[k] == v)}


def case_strategy():
    s = ggen.st()

    @s.composite
    def build(draw):
        g = draw(ggen.graph_case(nmax=7))
        n = len(g["ids"])
        dim = draw(s.sampled_from([0, 0, 0, 1, 2, (2, 2), (n, 1), (1, n)]))
        kind = draw(s.sampled_from(KINDS))
        val = s.one_of(s.integers(-3, 9).map(float), s.floats(-1e3, 1e3).map(float))
        if kind == "int8":
            val = s.integers(-128, 127).map(float)
        elif kind in ("int64", "F"):
            val = s.integers(-1000, 1000).map(float)
        elif kind == "bool":
            val = s.integers(0, 1).map(float)
        shape = (n,) + (() if dim == 0 else (dim,) if isinstance(dim, int) else dim)
        size = int(np.prod(shape))
        prop = np.resize([draw(val) for _ in range(min(size, 49))], shape).tolist()
        return {
            "g": g,
            "prop": prop,
            "kind": kind,
            "brief": draw(s.booleans()),
            "ndir": draw(s.sampled_from(DIRS)),
            "ddir": draw(s.sampled_from(DIRS)),
            "selfloops": draw(s.booleans()),
        }

    return build()


def check(case, backend):
    g = ggen.build(case["g"], backend)
    ref = ggen.Ref(case["g"], g)
    val = np.array(case["prop"], dtype=np.float64)
    prop = as_property(val, case["kind"], backend)
    keep = prop.copy()
    sl = case["selfloops"]
    kw = {"selfloops": sl}
    if ref.directed:
        kw["ndir"] = case["ndir"]
    sk = spoken(kw, case["brief"])
    what = "average_nn_property(%s array, %s)" % (case["kind"], sk)
    got = core.sut(what, g.average_nn_property, prop, **sk)
    flat = val.reshape(ref.n, -1)
    want = ref.nn(flat, case["ndir"], sl).reshape(val.shape)
    core.close(what, got, want, rtol=1e-9, atol=1e-9)
    core.equal("property array passed by the caller", core.dense("property", prop),
               core.dense("property", keep))
    if ref.directed:
        kw["ddir"] = case["ddir"]
    sk = spoken(kw, case["brief"])
    what = "average_nn_degree(%s)" % sk
    got = core.sut(what, g.average_nn_degree, **sk)
    core.close(what, got, ref.nn(ref.deg(case["ddir"]), case["ndir"], sl))
    # asked again the other way round, the answer must change accordingly
    kw["selfloops"] = not sl
    sk = spoken(kw, case["brief"])
    what = "average_nn_degree(%s) after asking for selfloops=%s" % (sk, sl)
    got = core.sut(what, g.average_nn_degree, **sk)
    core.close(what, got, ref.nn(ref.deg(case["ddir"]), case["ndir"], not sl))


def classify(case):
    nt, tags = ggen.classify(case["g"])
    tags += [
        "ndir:" + case["ndir"],
        "selfloops:%s" % case["selfloops"],
        "prop dim %d" % np.array(case["prop"]).ndim,
        "prop " + case["kind"],
    ]
    flat = np.array(case["prop"]).ravel()
    return nt and bool(np.any(flat != flat[0])), tags


TARGETS = [
    Target(
        "nn-" + b,
        case_strategy,
        lambda c, b=b: check(c, b),
        classify,
        quick=1600,
        thorough=40000,
        shards=3,
        tshards=4,
        group=b,
    )
    for b in ("dense", "sparse")
]
