"""Export to networkx."""
import numpy as np

from .. import core, ggen
from ..core import Target

PROP = "C05"
RULE = (
    "random graphs of the four classes and both backends are exported and read "
    "back from the networkx object (nodes, identifiers, groups, links, labels, "
    "weights, direction); non-trivial: at least 2 vertices, 2 distinct links and "
    "one of {repeated link, reciprocal link, self loop, 3 links}"
)


def py(x):
    return x.item() if hasattr(x, "item") else x


def norm(x):
    if isinstance(x, tuple):
        return tuple(py(y) for y in x)
    return py(x)


def check(case, backend):
    g = ggen.build(case, backend)
    ref = ggen.Ref(case, g)
    G = core.sut("to_networkx()", g.to_networkx)
    core.require(
        G.is_directed() == ref.directed and G.is_multigraph() == ref.multi,
        "to_networkx() gives a %s" % type(G).__name__,
    )
    core.require(
        {int(x) for x in G.nodes} == set(range(ref.n)) and len(G) == ref.n,
        "exported nodes are %r" % sorted(map(str, G.nodes))[:20],
    )
    want_id = {p: x for x, p in ref.pos.items()}
    for i, data in G.nodes(data=True):
        core.require(
            "node_id" in data and norm(data["node_id"]) == want_id[int(i)],
            "node %s exported with data %r, expected identifier %r"
            % (i, data, want_id[int(i)]),
        )
        if ref.groups is not None:
            core.require(
                "group" in data and norm(data["group"]) == ref.gval[int(i)],
                "node %s exported with data %r, expected group %r"
                % (i, data, ref.gval[int(i)]),
            )
    want = {}
    T = ref.tensor(True, True)
    for k, i, j in zip(*np.nonzero(T)):
        if not ref.directed and i > j:
            continue
        want[(int(k), int(i), int(j))] = T[k, i, j]
    got = {}
    inv = {}
    if ref.multi:
        inv = ref.lpos
    for i, j, data in G.edges(data=True):
        i, j = int(i), int(j)
        if not ref.directed and i > j:
            i, j = j, i
        k = 0
        if ref.multi:
            core.require(
                norm(data.get("label")) in inv,
                "link (%d, %d) exported with label %r" % (i, j, data.get("label")),
            )
            k = inv[norm(data["label"])]
        core.require(
            (k, i, j) not in got, "link %r exported twice" % ((k, i, j),)
        )
        got[(k, i, j)] = float(data.get("weight", 1))
    core.require(
        set(got) == set(want),
        "exported links %r, expected %r" % (sorted(got)[:30], sorted(want)[:30]),
    )
    ks = sorted(want)
    core.close(
        "weights of the exported links %r" % ks[:30],
        np.array([got[k] for k in ks]),
        np.array([want[k] for k in ks]),
    )
    core.require(
        int(G.number_of_edges()) == len(want),
        "exported object counts %s links, expected %d"
        % (G.number_of_edges(), len(want)),
    )


TARGETS = [
    Target(
        "export-" + b,
        ggen.graph_case,
        lambda c, b=b: check(c, b),
        ggen.classify,
        quick=1500,
        thorough=40000,
        shards=2,
        tshards=4,
        group=b,
    )
    for b in ("dense", "sparse")
]
