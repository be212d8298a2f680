"""Histories of queries on one graph object."""
import numpy as np

from .. import core, ggen
from ..core import Target

PROP = "C04"
RULE = (
    "random graphs on which a random history of up to 14 queries (every measure, "
    "matrices, neighbour averages with varying options, exports, requests that "
    "must be refused, with and without the recompute options) is run; each answer "
    "is compared with the reference graph, so no query may change what a later one "
    "says; at the end every measure is asked once more and the links are unchanged; non-trivial: at least 2 "
    "vertices, 2 distinct links and 3 different operations in the history"
)
DIRS = ("out", "in", "out-in")


def case_strategy():
    s = ggen.st()

    @s.composite
    def build(draw):
        g = draw(ggen.graph_case(nmax=6))
        op = s.one_of(
            s.tuples(s.just("m"), s.integers(0, 40), s.booleans()),
            s.tuples(s.just("m"), s.integers(0, 40), s.booleans()),
            s.tuples(s.just("adj"), s.booleans(), s.booleans()),
            s.tuples(s.just("ten"), s.booleans(), s.booleans()),
            s.tuples(
                s.just("nnd"), s.sampled_from(DIRS), s.sampled_from(DIRS),
                s.booleans(), s.booleans(), s.booleans(),
            ),
            s.tuples(
                s.just("nnd"), s.sampled_from(DIRS), s.sampled_from(DIRS),
                s.booleans(), s.booleans(), s.booleans(),
            ),
            s.tuples(
                s.just("nnp"), s.sampled_from(DIRS), s.booleans(), s.booleans()
            ),
            s.tuples(s.just("nx")),
            s.tuples(s.just("bad"), s.integers(0, 2)),
        ).map(list)
        ops = draw(s.lists(op, min_size=2, max_size=14))
        if draw(s.booleans()):
            # a few requests, asked again and again
            ops = draw(s.lists(s.sampled_from(ops[:4]), min_size=4, max_size=14))
        return {"g": g, "ops": ops, "again": draw(s.integers(0, 40))}

    return build()


def check(case, backend):
    g = ggen.build(case["g"], backend)
    ref = ggen.Ref(case["g"], g)
    q = ref.queries()
    names = sorted(q)
    hist = []
    kept = core.Kept()
    for op in case["ops"]:
        k = op[0]
        where = " after %s" % hist if hist else ""
        if k == "m":
            name = names[op[1] % len(names)]
            hist.append(name)
            what = "%s(recompute=%s)%s" % (name, op[2], where)
            got = core.sut(what, getattr(g, name), recompute=op[2])
            core.close(what, kept.array("the answer of " + what, got), q[name], rtol=1e-10)
        elif k == "adj" or (k == "ten" and not ref.multi):
            what = "adjacency_matrix(directed=%s, weighted=%s)%s" % (op[1], op[2], where)
            hist.append("adjacency_matrix")
            got = core.sut(what, g.adjacency_matrix, directed=op[1], weighted=op[2])
            core.close(what, kept.array("the answer of " + what, got),
                       ref.matrix(op[1], op[2]))
        elif k == "ten":
            what = "adjacency_tensor(directed=%s, weighted=%s)%s" % (op[1], op[2], where)
            hist.append("adjacency_tensor")
            core.close(
                what,
                core.sut(what, g.adjacency_tensor, directed=op[1], weighted=op[2]),
                ref.tensor(op[1], op[2]),
            )
        elif k == "nnd":
            kw = dict(selfloops=op[3], recompute=op[4], deg_recompute=op[5])
            if ref.directed:
                kw.update(ndir=op[1], ddir=op[2])
            hist.append("average_nn_degree%s" % kw)
            what = "average_nn_degree(%s)%s" % (kw, where)
            got = core.sut(what, g.average_nn_degree, **kw)
            core.close(what, kept.array("the answer of " + what, got),
                       ref.nn(ref.deg(op[2]), op[1], op[3]))
        elif k == "nnp":
            kw = dict(selfloops=op[2], deg_recompute=op[3])
            if ref.directed:
                kw.update(ndir=op[1])
            prop = kept.array("the property", np.arange(ref.n) * 1.5 - 1)
            hist.append("average_nn_property%s" % kw)
            what = "average_nn_property(%s)%s" % (kw, where)
            got = core.sut(what, g.average_nn_property, prop, **kw)
            core.close(what, kept.array("the answer of " + what, got),
                       ref.nn(prop, op[1], op[2]))
        elif k == "nx":
            hist.append("to_networkx")
            G = core.sut("to_networkx()" + where, g.to_networkx)
            core.require(len(G) == ref.n, "export has %d nodes" % len(G))
        else:
            hist.append("(refused call)")
            if op[1] == 0 or not ref.directed:
                core.rejects(
                    "a property of the wrong length" + where,
                    g.average_nn_property, np.ones(ref.n + 1),
                )
            elif op[1] == 1:
                core.rejects(
                    "an unknown neighbourhood direction" + where,
                    g.average_nn_property, np.ones(ref.n), ndir="sideways",
                )
            else:
                core.rejects(
                    "an unknown degree direction" + where,
                    g.average_nn_degree, ddir="sideways",
                )
    if "again" in case:
        # whatever was asked before, every measure still tells the truth
        k = case["again"] % len(names)
        for name in names[k:] + names[:k]:
            what = "%s() after %s" % (name, hist)
            got = core.sut(what, getattr(g, name))
            core.close(what, kept.array("the answer of " + what, got), q[name], rtol=1e-10)
    kept.check(hist)
    core.close(
        "links at the end of the history %s" % hist,
        core.sut("adjacency_matrix", g.adjacency_matrix, directed=True, weighted=True),
        ref.matrix(True, True),
    )
    if ref.multi:
        core.close(
            "links by label at the end of the history %s" % hist,
            core.sut("adjacency_tensor", g.adjacency_tensor, directed=True, weighted=True),
            ref.tensor(True, True),
        )


def classify(case):
    nt, tags = ggen.classify(case["g"])
    kinds = {str(o[:2]) for o in case["ops"]}
    tags.append("history length %d-%d" % (len(case["ops"]) // 5 * 5, len(case["ops"]) // 5 * 5 + 4))
    return nt and len(kinds) >= 3, tags


TARGETS = [
    Target(
        "history-" + b,
        case_strategy,
        lambda c, b=b: check(c, b),
        classify,
        quick=1200,
        thorough=40000,
        shards=3,
        tshards=4,
        group=b,
    )
    for b in ("dense", "sparse")
]
