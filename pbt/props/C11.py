"""Binary graphs sampled from an ensemble."""
import numpy as np

from .. import core, ggen, mgen, stats
from ..core import Target
from ..ggen import st

PROP = "C11"
SPARK = ("sample",)
RULE = (
    "random fully specified ensembles (with and without self loops, the option also "
    "overridden in the call, with and without a reference graph) from which hundreds "
    "of graphs are drawn under a generated seed; each draw must be a well-formed "
    "binary graph, links of probability 0 and 1 are never/always there, and the "
    "number of occurrences of each link, of links of equal probability, of pairs of "
    "links and of links in successive draws stay within Bernstein bounds (false "
    "alarm < 1e-12 each) of independent links with the stated probabilities; every "
    "measure of a drawn graph is compared with the reference; non-trivial: 2 distinct "
    "link probabilities in (0,1)"
)


def case_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), nmin=1, nmax=6, lmax=3, moderate=True))
        return {
            "m": m,
            "sl": draw(s.sampled_from([None, None, True, False])),
            "ref": draw(s.sampled_from([None, None, "plain", "groups"])),
            "seed": draw(s.integers(0, 2**32 - 1)),
        }

    return build()


def ref_graph(case, backend):
    """A graph on the same vertices (and labels) with names and groups."""
    import pandas as pd

    m = case["m"]
    n, L = m["n"], m.get("L", 1)
    ids = ["v%d" % (n - i) for i in range(n)]
    v = pd.DataFrame({"id": ids, "grp": ["g%d" % (i % 3) for i in range(n)]})
    multi = mgen.is_multi(m)
    e = pd.DataFrame({
        "s": [ids[i % n] for i in range(max(n, L))],
        "d": [ids[(i + 1) % n] for i in range(max(n, L))],
        "l": ["k%d" % (L - i % L) for i in range(max(n, L))],
    })
    kw = dict(v_id="id", src="s", dst="d")
    if case["ref"] == "groups":
        kw["v_group"] = "grp"
    if multi:
        kw["edge_label"] = "l"
    gm = ggen.module(backend)
    cls = gm.MultiDiGraph if multi else gm.DiGraph
    return core.sut("reference graph", cls, v, e, **kw)


def names(what, g, ref, multi, n, L):
    """The drawn graph names its vertices (groups, labels) as the reference."""
    core.require(int(g.num_vertices) == n, "%s has num_vertices %s" % (what, g.num_vertices))
    want = {i: i for i in range(n)} if ref is None else ref.id_dict
    core.require(dict(g.id_dict) == dict(want), "%s has vertex names %s, expected %s"
                 % (what, g.id_dict, want))
    core.require(np.dtype(g.id_dtype).kind == "u" and np.iinfo(g.id_dtype).max >= n - 1,
                 "%s: vertex positions do not fit in %s" % (what, g.id_dtype))
    if multi:
        core.require(int(g.num_labels) == L, "%s has num_labels %s" % (what, g.num_labels))
        want = {i: i for i in range(L)} if ref is None else ref.label_dict
        core.require(dict(g.label_dict) == dict(want),
                     "%s has labels %s, expected %s" % (what, g.label_dict, want))
    if ref is not None and hasattr(ref, "groups"):
        core.require(hasattr(g, "groups"), "%s lost the groups" % what)
        core.equal(what + " groups", g.groups, np.asarray(ref.groups))
        core.require(dict(g.group_dict) == dict(ref.group_dict), what + " group names differ")
        core.require(g.num_groups == ref.num_groups, what + " num_groups differs")


def measures(what, g, R):
    """Every measure of the drawn graph agrees with the reference."""
    for name, want in R.queries().items():
        core.close("%s.%s()" % (what, name), core.sut(what + "." + name, getattr(g, name)),
                   want, rtol=1e-9)
    for d in (True, False):
        for w in (True, False):
            core.close("%s.adjacency_matrix(%s, %s)" % (what, d, w),
                       core.sut(what, g.adjacency_matrix, directed=d, weighted=w),
                       R.matrix(d, w))
    for nd in ("out", "in", "out-in"):
        core.close("%s.average_nn_degree(%s)" % (what, nd),
                   core.sut(what + ".average_nn_degree", g.average_nn_degree, ndir=nd,
                            ddir="out"),
                   R.nn(R.deg("out"), nd, False))
    G = core.sut(what + ".to_networkx", g.to_networkx)
    core.require(len(G) == R.n and G.number_of_edges() == int(R.TA.sum()),
                 "%s.to_networkx() has %d nodes and %d edges, expected %d and %d"
                 % (what, len(G), G.number_of_edges(), R.n, int(R.TA.sum())))


def layers(what, g, multi):
    A = core.dense(what + " links", g.adj)
    return A if multi else A[None]


def check(case, backend, S=None):
    mc = case["m"]
    n, L = mc["n"], mc.get("L", 1)
    multi = mgen.is_multi(mc)
    m = mgen.build(mc, backend)
    sl = mc["sl"] if case["sl"] is None else case["sl"]
    kw = {} if case["sl"] is None else {"selfloops": case["sl"]}
    ref = None
    if case["ref"] is not None:
        ref = ref_graph(case, backend)
        kw["ref_g"] = ref
    P, T = mgen.probs(mc, selfloops=sl)
    cells = (T if multi else P[None]).ravel()
    if S is None:
        S = int(np.clip(16000 // cells.size, 2, 400))
    core.seed_all(case["seed"])
    what = "%s %s.sample(%s)" % (backend, mgen.NAMES[mc["model"]],
                                 ", ".join("%s=%s" % (k, "..." if k == "ref_g" else v)
                                           for k, v in kw.items()))
    before = np.array(m.param, dtype=float).copy()
    X = np.empty((S, cells.size), dtype=np.float64)
    gm = ggen.module(backend)
    cls = gm.MultiDiGraph if multi else gm.DiGraph
    for t in range(S):
        g = core.sut(what, m.sample, **kw)
        B = layers(what, g, multi)
        if B.shape != (L if multi else 1, n, n):
            raise core.Violation("%s has links of shape %s" % (what, B.shape))
        X[t] = B.ravel()
        if t in (0, S - 1):
            core.require(isinstance(g, cls), "%s is a %s" % (what, type(g).__name__))
            names(what, g, ref, multi, n, L)
            groups = ref.groups if ref is not None and hasattr(ref, "groups") else None
            R = ggen.Ref.of(B, multi=multi, weighted=False, groups=groups)
            measures(what, g, R)
    core.require(np.all((X == 0) | (X == 1)), "%s has links other than 0 and 1" % what)
    stats.check_binary(what, X, cells, (L if multi else 1, n, n))
    core.require(np.array_equal(np.asarray(m.param, dtype=float), before)
                 and bool(m.selfloops) == mc["sl"], "%s changed the ensemble" % what)


def classify(case):
    nt, tags = mgen.classify(case["m"])
    if case["sl"] is not None and case["sl"] != case["m"]["sl"]:
        tags.append("self-loop option overridden")
    if case["ref"]:
        tags.append("reference graph")
    return nt or (case["m"]["model"] == "rand" and case["m"]["n"] > 1
                  and 0 < case["m"]["p"] < 1), tags


TARGETS = []
for b in ("dense", "sparse"):
    for mo in mgen.MODELS:
        TARGETS.append(Target(
            "sample-%s-%s" % (b, mo),
            lambda mo=mo: case_strategy(mo),
            lambda c, b=b: check(c, b),
            classify,
            quick=60,
            thorough=1500,
            group="%s-%s" % (b, mo if mo != "rand" else "fit"),
        ))
