"""Expected nearest neighbour averages of an ensemble."""
import numpy as np

from .. import core, mgen
from ..core import Target
from ..ggen import st

PROP = "C08"
SPARK = ("nn",)
RULE = (
    "random fully specified ensembles with a random vertex property (one or two "
    "dimensional), every neighbourhood and degree direction, self loops counted, "
    "not counted or as in the model; the answer is compared with the sum over an "
    "explicit matrix of link probabilities divided by the expected degree; "
    "non-trivial: at least 2 vertices, 2 distinct link probabilities in (0,1) and "
    "a non-constant property"
)
DIRS = ("out", "in", "out-in")

DEFAULTS = {"ndir": "out", "ddir": "out", "selfloops": False}


def spoken(kw, brief):
    """Options, without those equal to their documented defaults."""
    return {k: v for k, v in kw.items()
            if not (brief and v is not None and DEFAULTS[k] == v)}


def case_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), kinds=("float",)))
        n = m["n"]
        rep = min(n, 9)
        dim = draw(s.sampled_from([0, 0, 1, 2, 3]))
        val = s.one_of(s.integers(-3, 9).map(float), s.floats(-1e3, 1e3).map(float))
        if dim == 0:
            prop = [draw(val) for _ in range(rep)]
        else:
            prop = [[draw(val) for _ in range(dim)] for _ in range(rep)]
        kind = "float64"
        if dim == 0:
            kind = draw(s.sampled_from(["float64"] * 5 + ["int64", "bool", "int8", "uint8",
                                                         "float32"]))
            if kind != "float64":
                hi = {"bool": 1, "int8": 127, "uint8": 255}.get(kind, 9)
                prop = [draw(s.integers(0, hi)) for _ in range(rep)]
        return {
            "m": m,
            "prop": mgen.cyc(prop, n, 2),
            "kind": kind,
            "brief": draw(s.booleans()),
            "ndir": draw(s.sampled_from(DIRS)),
            "ddir": draw(s.sampled_from(DIRS)),
            "sl": draw(s.sampled_from([True, False, None])),
        }

    return build()


def compare(m, case):
    mc = case["m"]
    sl = mc["sl"] if case["sl"] is None else case["sl"]
    P, T = mgen.probs(mc, selfloops=sl)
    val = np.array(case["prop"], dtype=np.float64)
    prop = val.astype(case.get("kind", "float64"))
    keep = prop.copy()
    scale = max(1.0, float(np.abs(val).max()))
    brief = case.get("brief", False)
    opt = dict(ndir=case["ndir"], selfloops=case["sl"])
    kw = spoken(opt, brief)
    what = "expected_av_nn_property(%s array, %s)" % (prop.dtype, kw)
    tol = dict(rtol=1e-8, atol=1e-9 * scale)
    if prop.dtype == np.float32:
        tol = dict(rtol=1e-5, atol=1e-6 * scale)  # answers may come in the same precision
    got = core.sut(what, m.expected_av_nn_property, prop, **kw)
    mgen.nn_close(what, got, P, val, case["ndir"], T is not None, **tol)
    core.equal("property array passed by the caller", prop, keep)
    opt["ddir"] = case["ddir"]
    kw = spoken(opt, brief)
    what = "expected_av_nn_degree(%s)" % kw
    und, out, inn = mgen.degrees(P)
    deg = {"out": out, "in": inn, "out-in": und}[case["ddir"]]
    got = core.sut(what, m.expected_av_nn_degree, **kw)
    mgen.nn_close(what, got, P, deg, case["ndir"], T is not None, rtol=1e-8, atol=1e-9)


def check(case, backend):
    m = mgen.build(case["m"], backend)
    compare(m, case)


def classify(case):
    nt, tags = mgen.classify(case["m"])
    a = np.array(case["prop"])
    tags += ["ndir:" + case["ndir"], "prop dim %d" % a.ndim, "asked:%s" % case["sl"]]
    return nt and bool(np.any(a.ravel() != a.ravel()[0])), tags


TARGETS = [
    Target(
        "nn-%s-%s" % (b, mo),
        lambda mo=mo: case_strategy(mo),
        lambda c, b=b: check(c, b),
        classify,
        quick=500,
        thorough=12000,
        group="%s-%s" % (b, mo if mo != "rand" else "fit"),
    )
    for b in ("dense", "sparse")
    for mo in mgen.MODELS
]
