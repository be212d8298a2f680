"""Degrees, strengths, link counts and weights, overall, by group and by label."""
from .. import core, ggen
from ..core import Target

PROP = "C02"
RULE = (
    "random graphs of the four classes and both backends; every measure the "
    "class offers (counts, totals, degree/strength sequences, by group, by "
    "label) is compared with sums over a reference built edge by edge, plus sum "
    "rules between measures; non-trivial: at least 2 vertices, 2 distinct links "
    "and one of {repeated link, reciprocal link, self loop, 3 links}"
)
ASSUMPTIONS = ["integer weights are small enough not to overflow their own type"]


def check(case, backend):
    g = ggen.build(case, backend)
    ref = ggen.Ref(case, g)
    got = {}
    for name, want in ref.queries().items():
        what = "%s()" % name
        val = core.sut(what, getattr(g, name))
        core.close(what, val, want, rtol=1e-10)
        got[name] = core.dense(what, val).astype(float)
    # sum rules, from the object's own answers
    if ref.directed:
        core.close("sum of out_degree", got["out_degree"].sum(), got["num_edges"])
        core.close("sum of in_degree", got["in_degree"].sum(), got["num_edges"])
        core.close("sum of out_strength", got["out_strength"].sum(), got["total_weight"])
        core.close("sum of in_strength", got["in_strength"].sum(), got["total_weight"])
    if ref.multi and ref.weighted:
        core.close(
            "sum over labels of total_weight_label",
            got["total_weight_label"].sum(),
            got["total_weight"],
        )
    if not ref.weighted:
        core.close("strength of an unweighted graph", got["strength"], got["degree"])
    if ref.groups is not None:
        core.close(
            "degree_by_group summed over groups",
            got["degree_by_group"].sum(axis=1),
            got["degree"],
        )
        core.close(
            "strength_by_group summed over groups",
            got["strength_by_group"].sum(axis=1),
            got["strength"],
            rtol=1e-10,
        )


def strat():
    return ggen.graph_case()


def strat_groups():
    return ggen.graph_case(groups="always", big=False, weights="weighted")


def strat_hub():
    return ggen.graph_case(groups="always", hub=True)


TARGETS = []
for b in ("dense", "sparse"):
    TARGETS.append(
        Target(
            "measures-" + b,
            strat,
            lambda c, b=b: check(c, b),
            ggen.classify,
            quick=1200,
            thorough=30000,
            shards=3,
            tshards=4,
            group=b,
        )
    )
    TARGETS.append(
        Target(
            "grouped-" + b,
            strat_groups,
            lambda c, b=b: check(c, b),
            ggen.classify,
            quick=450,
            thorough=12000,
            shards=3,
            tshards=4,
            group=b,
        )
    )
    TARGETS.append(
        Target(
            "hub-" + b,
            strat_hub,
            lambda c, b=b: check(c, b),
            ggen.classify,
            quick=60,
            thorough=600,
            group=b,
        )
    )
