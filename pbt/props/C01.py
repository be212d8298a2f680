"""Construction of graphs from vertex and edge lists."""
import warnings

from .. import core, ggen
from ..core import Target

PROP = "C01"
RULE = (
    "random vertex/edge lists for the four graph classes and both backends "
    "(integer, string, float and multi-column identifiers, optional groups and "
    "labels, unweighted/integer/real weights, repeated and reciprocal links, "
    "self loops, isolated vertices, sizes around the 8 bit and (sparse) 16 bit id "
    "limits, vertices linked to all others); non-trivial: "
    "at least 2 vertices, 2 distinct links and one of {repeated link, reciprocal "
    "link, self loop, 3 links}; distinct by full content of the case"
)
ASSUMPTIONS = [
    "sums of weights are small enough for 64 bit integers",
    "identifiers within one column are mutually comparable",
]


def announced(case, ref, messages):
    """Vertices without links, and only these, are named in a warning."""
    used = {x for e in case["edges"] for x in e[:2]}
    lone = [str(x) for k, x in enumerate(ref.ids) if k not in used]
    text = " ".join(messages)
    if not lone:
        core.require(not messages, "every vertex has links, but: %s" % text[:200])
        return
    for x in lone:
        core.require(x in text, "vertices %s have no links, but the warning is %r"
                     % (lone[:10], text[:200]))
    for k, x in enumerate(ref.ids):
        x = str(x)
        if k in used and len(x) > 3 and x not in str(lone):
            core.require(x not in text, "vertex %s has links, but the warning is %r"
                         % (x, text[:200]))


def check_build(case, backend):
    v, e, kw = ggen.frames(case)
    v0, e0 = v.copy(deep=True), e.copy(deep=True)
    cls = getattr(ggen.module(backend), case["cls"])
    g = core.sut("%s(...)" % case["cls"], cls, v, e, **kw)
    core.require(
        v0.equals(v[list(v0.columns)]) and list(v0.index) == list(v.index),
        "the caller's vertex table was changed",
    )
    core.require(
        e0.equals(e[list(e0.columns)]) and list(e0.index) == list(e.index),
        "the caller's edge table was changed",
    )
    ref = ggen.Ref(case, g)
    core.require(
        bool(g.weighted) == ref.weighted,
        "weighted is %s on a graph built %s weights"
        % (g.weighted, "with" if ref.weighted else "without"),
    )
    for directed in (True, False):
        for weighted in (True, False):
            what = "adjacency_matrix(directed=%s, weighted=%s)" % (directed, weighted)
            got = core.sut(what, g.adjacency_matrix, directed=directed, weighted=weighted)
            core.close(what, got, ref.matrix(directed, weighted))
            if ref.multi:
                what = "adjacency_tensor(directed=%s, weighted=%s)" % (
                    directed,
                    weighted,
                )
                got = core.sut(
                    what, g.adjacency_tensor, directed=directed, weighted=weighted
                )
                core.require(len(got) == ref.nl, "%s has %d layers for %d labels"
                             % (what, len(got), ref.nl))
                core.close(what, got, ref.tensor(directed, weighted))
    # left out, the options are directed (for directed graphs) and not weighted
    core.close("adjacency_matrix()", core.sut("adjacency_matrix()", g.adjacency_matrix),
               ref.matrix(True, False))
    if ref.multi:
        core.close("adjacency_tensor()", core.sut("adjacency_tensor()", g.adjacency_tensor),
                   ref.tensor(True, False))
    # the tables given by the user remain usable for a second graph
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            g2 = cls(v, e, **kw)
        except Exception as exc:
            raise core.Violation("second %s(...) raised %s: %s" % (
                case["cls"], type(exc).__name__, str(exc)[:300])) from None
    announced(case, ref, [str(w.message) for w in rec if w.category is UserWarning])
    ref2 = ggen.Ref(case, g2)
    core.close(
        "adjacency of a second graph from the same tables",
        core.sut("adjacency_matrix", g2.adjacency_matrix, weighted=True),
        ref2.matrix(True, True),
    )


def check_order(case, backend):
    """Row order of the tables must not matter (metamorphic)."""
    g = ggen.build(case, backend)
    n = len(case["ids"])
    perm = case["vperm"]
    c2 = dict(case)
    c2["ids"] = [case["ids"][p] for p in perm]
    inv = {p: i for i, p in enumerate(perm)}
    c2["edges"] = [
        [inv[case["edges"][k][0]], inv[case["edges"][k][1]]] + case["edges"][k][2:]
        for k in case["eperm"]
    ]
    if case["groups"] is not None:
        c2["groups"] = {
            "kind": case["groups"]["kind"],
            "vals": [case["groups"]["vals"][p] for p in perm],
        }
    h = ggen.build(c2, backend)
    r, q = ggen.Ref(case, g), ggen.Ref(c2, h)
    idx = [q.pos[x] for x in sorted(r.pos, key=r.pos.get)]
    for weighted in (True, False):
        a = core.dense("a", core.sut("adjacency", g.adjacency_matrix, weighted=weighted))
        b = core.dense("b", core.sut("adjacency", h.adjacency_matrix, weighted=weighted))
        core.close(
            "adjacency after reordering the rows of the tables",
            b[idx][:, idx],
            a.astype(float),
        )


def order_case():
    s = ggen.st()

    @s.composite
    def build(draw):
        c = draw(ggen.graph_case(big=False))
        c["vperm"] = list(draw(s.permutations(range(len(c["ids"])))))
        c["eperm"] = list(draw(s.permutations(range(len(c["edges"])))))
        return c

    return build()


def wide_case():
    """Sizes around the 16 bit id limit (sparse backend)."""
    s = ggen.st()

    @s.composite
    def build(draw):
        n = draw(s.sampled_from([65533, 65534, 65535, 65536, 65537, 65540, 66000]))
        edge = [0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536, n - 2, n - 1]
        node = s.one_of(s.sampled_from([x for x in edge if x < n]), s.integers(0, n - 1))
        return {
            "cls": draw(s.sampled_from(ggen.CLASSES)), "n": n,
            "edges": draw(s.lists(s.tuples(node, node, s.integers(0, 2), s.integers(1, 9))
                                  .map(list), min_size=2, max_size=12)),
            "groups": draw(s.sampled_from([None, 3, n, 65536])),
            "str": draw(s.booleans()), "weighted": draw(s.booleans()),
            "rev": draw(s.booleans()),
        }

    return build()


def check_wide(case, backend):
    import numpy as np
    import pandas as pd
    import scipy.sparse as sp

    n = case["n"]
    name = (lambda k: "v%06d" % k) if case["str"] else (lambda k: 2 * k - 7)
    order = range(n - 1, -1, -1) if case["rev"] else range(n)
    v = pd.DataFrame({"id": [name(k) for k in order]})
    kw = dict(v_id="id", src="s", dst="d")
    ng = case["groups"]
    if ng:
        v["g"] = [k % ng for k in order]
        kw["v_group"] = "g"
    # every vertex has a link, then the links of the case
    ed = np.array([[k, (k + 1) % n, 0, 1 + k % 3] for k in range(n)] + case["edges"])
    names = np.array([name(k) for k in range(n)], dtype=object if case["str"] else None)
    e = pd.DataFrame({"s": names[ed[:, 0]], "d": names[ed[:, 1]], "l": ed[:, 2],
                      "w": ed[:, 3].astype(float)})
    if case["weighted"]:
        kw["weight"] = "w"
    multi = case["cls"].startswith("Multi")
    if multi:
        kw["edge_label"] = "l"
    g = core.sut(case["cls"], getattr(ggen.module("sparse"), case["cls"]), v, e, **kw)
    core.require(int(g.num_vertices) == n, "num_vertices is %s" % g.num_vertices)
    pos = g.id_dict
    core.require(len(pos) == n and sorted(pos.values()) == list(range(n)),
                 "vertices are not numbered one to one")
    at = np.array([int(pos[name(k)]) for k in range(n)])
    if ng:
        core.require(int(g.num_groups) == min(ng, n), "num_groups is %s" % g.num_groups)
        want = np.array([int(g.group_dict[k % ng]) for k in range(n)])
        core.require(sorted(set(want)) == list(range(min(ng, n))), "groups not one to one")
        core.equal("group of each vertex", np.asarray(g.groups)[at], want)

    def matrix(rows, directed, weighted):
        M = sp.coo_array((ed[rows, 3].astype(float), (at[ed[rows, 0]], at[ed[rows, 1]])),
                         shape=(n, n)).tocsr()
        if not (weighted and case["weighted"]):
            M = (M != 0).astype(float)
        if not (directed and "Di" in case["cls"]):
            M = M + M.T - sp.diags(M.diagonal())
            if not (weighted and case["weighted"]):
                M = (M != 0).astype(float)
        return M

    def compare(what, got, want):
        core.require(got.shape == (n, n), "%s has shape %s" % (what, got.shape))
        D = (sp.csr_array(got).astype(float) - want).tocoo()
        bad = [(int(i), int(j), float(x)) for i, j, x in zip(D.row, D.col, D.data) if x]
        core.require(not bad, "%s of %d vertices is wrong in %d places, e.g. (row, column, excess) "
                     "%s" % (what, n, len(bad), bad[:4]))

    for d in (True, False):
        for w in (True, False):
            what = "adjacency_matrix(directed=%s, weighted=%s)" % (d, w)
            compare(what, core.sut(what, g.adjacency_matrix, directed=d, weighted=w),
                    matrix(slice(None), d, w))
    if multi:
        T = core.sut("adjacency_tensor", g.adjacency_tensor, directed=True, weighted=False)
        for k in set(ed[:, 2]):
            compare("layer of adjacency_tensor()", T[g.label_dict[k]],
                    matrix(ed[:, 2] == k, True, False))
    A, W = matrix(slice(None), False, False), matrix(slice(None), False, True)
    core.close("degree()", core.sut("degree", g.degree), A.sum(axis=1))
    core.close("strength()", core.sut("strength", g.strength), W.sum(axis=1))


def classify_wide(case):
    return len({(x[0], x[1]) for x in case["edges"]}) > 1, [
        "n:%d" % case["n"], case["cls"], "groups:%s" % case["groups"]]


TARGETS = [Target("wide-sparse", wide_case, lambda c: check_wide(c, "sparse"), classify_wide,
                  quick=16, thorough=300, shards=2, tshards=4, group="wide")]
for b in ("dense", "sparse"):
    TARGETS.append(
        Target(
            "build-" + b,
            lambda: ggen.graph_case(single=True),
            lambda c, b=b: check_build(c, b),
            ggen.classify,
            quick=1600,
            thorough=40000,
            shards=3,
            tshards=4,
            group=b,
        )
    )
    TARGETS.append(
        Target(
            "order-" + b,
            order_case,
            lambda c, b=b: check_order(c, b),
            ggen.classify,
            quick=400,
            thorough=10000,
            shards=3,
            tshards=4,
            group=b,
        )
    )
