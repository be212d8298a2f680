"""An ensemble built from a graph is the ensemble of the graph's own quantities."""
import contextlib
import io
import warnings

import numpy as np

from .. import core, ggen, mgen
from ..core import Target
from ..ggen import st

PROP = "C20"
RULE = (
    "random graphs (as for the properties of graphs: repeated and reciprocal links, self "
    "loops, isolated vertices, weights, labels, groups) are handed to every ensemble that "
    "takes them, with random arguments overriding what the graph says; expectations at a "
    "given parameter, the fit, and the likelihood of the graph itself are compared with "
    "those of an ensemble given by the strengths and link numbers counted link by link; "
    "graphs drawn from an ensemble (with the names and groups of the first graph) are "
    "handed back in the same way; the graph must answer as before; non-trivial: a graph "
    "with 2 different positive strengths and 3 links"
)
OF = {"rand": ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"),
      "fit": ("DiGraph", "MultiDiGraph"), "inv": ("DiGraph", "MultiDiGraph"),
      "mfit": ("MultiDiGraph",), "minv": ("MultiDiGraph",)}


def case_strategy(mo, backend):
    s = st()

    @s.composite
    def build(draw):
        c = draw(ggen.graph_case(classes=OF[mo], nmax=6, min_edges=1))
        n = len(c["ids"])
        over = draw(s.lists(s.sampled_from(["num_edges", "prop_out", "prop_in", "param",
                                            "total_weight"]), max_size=3, unique=True))
        f = s.integers(0, 16).map(lambda v: v / 4)
        return {"g": c, "model": mo, "over": sorted(over), "sl": draw(s.sampled_from(
                    [None, True, False])),
                "x": mgen.cyc([[draw(f) for _ in range(4)] for _ in range(min(n, 6))], n),
                "y": mgen.cyc([[draw(f) for _ in range(4)] for _ in range(min(n, 6))], n, 1),
                "d": draw(s.sampled_from([0.0, 0.01, 0.1, 1.0, 3.0])),
                "frac": draw(s.one_of(s.just(0), s.integers(1, 18), s.integers(1, 18))) / 20,
                "per": draw(s.sampled_from([None, None, None, True, False])),
                "W": draw(s.integers(1, 40)) / 2, "again": draw(s.booleans()),
                "seed": draw(s.integers(0, 2**32 - 1)), "order": draw(s.integers(0, 3)),
                "disc": draw(s.sampled_from([None, None, True, False]))}

    return build()


def snapshot(g, ref):
    r = {k: core.dense(k, core.sut(k, getattr(g, k))).copy() for k in ref.queries()}
    r["adjacency"] = core.dense("A", core.sut("A", g.adjacency_matrix, weighted=True)).copy()
    return r


def check(case, backend):
    gb = "sparse" if backend == "local" else backend
    g = ggen.build(case["g"], gb)
    ref = ggen.Ref(case["g"], g)
    snap = snapshot(g, ref)
    m = compare(case, backend, g, ref, "")
    for k, x in snapshot(g, ref).items():
        core.equal("%s() of the graph after it was given to an ensemble" % k, x, snap[k])
    if m is None or not case["again"]:
        return
    # and a graph drawn from the ensemble
    core.seed_all(case["seed"])
    h = core.sut("sample(ref_g=...)", m.sample, ref_g=g)
    multi = mgen.is_multi(case)
    T = core.dense("T", core.sut("T", h.adjacency_tensor) if multi
                   else core.sut("A", h.adjacency_matrix)).astype(float)
    T = T if multi else T[None]
    r = ggen.Ref.of(T, directed=True, multi=multi, weighted=False, groups=ref.groups)
    compare(dict(case, over=[]), backend, h, r, " drawn from an ensemble")
    for k, x in snapshot(g, ref).items():
        core.equal("%s() of the graph after it was used as reference" % k, x, snap[k])


def compare(case, backend, g, ref, src):
    mo = case["model"]
    n = ref.n
    multi = mgen.is_multi(case)
    L = ref.nl if multi else 1
    what = "%s %s(graph%s)" % (backend, mgen.NAMES[mo], src)
    q = ref.queries()
    kw = {}
    if case["sl"] is not None:
        kw["selfloops"] = case["sl"]
    sl = bool(case["sl"])
    E = float(q["num_edges"])
    pairs = n * n if sl else n * (n - 1)
    if mo == "rand":
        W = float(q["total_weight"]) if ref.weighted else None
        if "num_edges" in case["over"]:
            E = kw["num_edges"] = case["frac"] * max(pairs, 1)
        if "total_weight" in case["over"]:
            W = kw["total_weight"] = E + case["W"]
        if case["disc"] is not None and W is not None and W >= E:
            kw["discrete_weights"] = case["disc"]
        m = mgen.construct(case, backend, (g,), kw)
        core.require(int(m.num_vertices) == n, "%s has %s vertices instead of %d"
                     % (what, m.num_vertices, n))
        if pairs == 0:
            return None
        core.sut(what + ".fit()", m.fit)
        core.close(what + " fitted link probability", np.asarray(m.param)[0], E / pairs)
        core.close(what + " expected_num_edges()",
                   core.sut("expected_num_edges", m.expected_num_edges), E)
        if W is not None and E > 0:
            # (the parameter of whole weights is 1 - E / W, rounded)
            core.close(what + " expected_total_weight()",
                       core.sut("expected_total_weight", m.expected_total_weight), W,
                       rtol=1e-9 + (1e-15 * W / E if kw.get("discrete_weights") else 0))
            core.close(what + " weight parameter", np.asarray(m.param)[1],
                       1 - E / W if kw.get("discrete_weights") else E / W)
        return m if E <= pairs else None
    # fitnesses
    key = "_by_label" if multi else ""
    x, y = q["out_strength" + key], q["in_strength" + key]
    if "prop_out" in case["over"]:
        x = kw["prop_out"] = np.array(case["x"])[:, np.arange(L) % 4].reshape(x.shape)
    if "prop_in" in case["over"]:
        y = kw["prop_in"] = np.array(case["y"])[:, np.arange(L) % 4].reshape(y.shape)
    scale = max(float(np.max(x)) * float(np.max(y)), 1e-9)
    d = case["d"] / scale
    mc = {"model": mo, "n": n, "sl": sl, "kind": "float", "x": x.tolist(), "y": y.tolist(),
          "d": [d] * L if multi else d, "L": L, "fmt": "dense", "single": True}
    # at a given parameter
    m = mgen.construct(case, backend, (g,), dict(kw, param=d))
    P, T = mgen.probs(mc)
    tol = dict(rtol=1e-9, atol=1e-12 * P.size)
    und, out, inn = mgen.degrees(P)
    for name, want in (("expected_num_edges", P.sum()), ("expected_out_degree", out),
                       ("expected_in_degree", inn), ("expected_degree", und)):
        core.close("%s.%s()" % (what, name), core.sut(name, getattr(m, name)), want, **tol)
    if multi:
        core.close("%s.expected_out_degree_by_label()" % what,
                   core.sut("by label", m.expected_out_degree_by_label), T.sum(axis=2).T, **tol)
    v = P if T is None else T
    v = v[..., ~np.eye(n, dtype=bool)] if not sl else v
    if (v.size and v.min() > 1e-6 and v.max() < 1 - 1e-6
            and (sl or not np.any(np.diag(ref.A)))):
        core.close(what + ".log_likelihood(the graph)",
                   core.sut("log_likelihood", m.log_likelihood, g),
                   mgen.loglike(mc, ref.tensor(True, False) if multi else
                                ref.matrix(True, False)), rtol=1e-7, atol=1e-7)
    # fitted
    Z = [np.outer(a, b) for a, b in zip(np.atleast_2d(x.T), np.atleast_2d(y.T))]
    ok = np.ones((n, n), bool) if sl else ~np.eye(n, dtype=bool)
    if multi:
        tgt = q["num_edges_label"]
        top = [((z > 0) & ok).sum() for z in Z]
    else:
        tgt = [E]
        top = [((Z[0] > 0) & ok).sum()]
    if "num_edges" in case["over"]:
        tgt = case["frac"] * np.array(top)
        kw.update({"num_edges_label": tgt} if multi else {"num_edges": float(tgt[0])})
    if multi and case["per"] is not None:
        kw["per_label"] = case["per"]
        if not case["per"]:
            # one parameter, for the links whatever their label
            one = (sum(Z) > 0) & ok
            if "num_edges" in case["over"]:
                E = kw["num_edges"] = case["frac"] * float(one.sum())
            f = mgen.construct(case, backend, (g,), kw)
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                core.sut(what + ".fit() of one parameter", f.fit)
            par = np.asarray(f.param, dtype=float)
            core.require(par.shape == (L,) and np.all(par == par[0]),
                         "%s: one parameter was asked for, but they are %s" % (what, par))
            lo = -np.expm1(sum(mgen.log_1mp(par[0] * z, mo) for z in Z))[ok].sum()
            core.close(what + ": expected links after the fit of one parameter",
                       core.sut("edges", f.expected_num_edges), lo, rtol=1e-8, atol=1e-10)
            if 0 <= E <= 0.95 * one.sum():
                core.close(what + " with one parameter, fitted to the links", lo, E,
                           rtol=1e-7, atol=1e-9)
            return f
    f = mgen.construct(case, backend, (g,), kw)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        core.sut(what + ".fit()", f.fit)
    if multi:
        got = core.dense(what, core.sut("edges", f.expected_num_edges_label))
    else:
        got = [core.dense(what, core.sut("edges", f.expected_num_edges))]
    par = np.asarray(f.param, dtype=float)
    core.require(par.shape == (L,), "%s: fitted parameters %s for %d labels" % (what, par, L))
    for k in range(L):
        lo = mgen.link_p(par[k] * Z[k], mo)[ok].sum()
        core.close("%s: expected links of layer %d after the fit" % (what, k), got[k], lo,
                   rtol=1e-8, atol=1e-10)
        if 0 <= tgt[k] <= 0.95 * top[k]:
            core.close("%s fitted to the links of layer %d" % (what, k), lo, tgt[k],
                       rtol=1e-7, atol=1e-9)
    return f


def cond_strategy():
    s = st()

    @s.composite
    def build(draw):
        c = draw(ggen.graph_case(classes=("DiGraph",), big=False, nmax=6, min_edges=1,
                                 groups="always"))
        n = len(c["ids"])
        f = s.integers(0, 16).map(lambda v: v / 4)
        return {"g": c, "over": sorted(draw(s.lists(s.sampled_from(
                    ["prop_out", "prop_in", "groups", "adj"]), max_size=2, unique=True))),
                "x": [draw(f) for _ in range(n)], "y": [draw(f) for _ in range(n)],
                "macro": draw(s.sampled_from(["graph", "array", "csr"])),
                "perm": list(draw(s.permutations(range(len({str(x) for x in
                                                            c["groups"]["vals"]}))))),
                "d": draw(s.sampled_from([0.01, 0.1, 1.0])), "model": "cond",
                "sl": draw(s.booleans())}

    return build()


def check_cond(case, backend=None):
    import pandas as pd
    import scipy.sparse as sp
    from graph_ensembles.sparse.models import ConditionalInvariantModel as cls

    from . import C13

    c = case["g"]
    g = ggen.build(c, "sparse")
    ref = ggen.Ref(c, g)
    q = ref.queries()
    snap = snapshot(g, ref)
    n, M = ref.n, ref.ng
    x, y = q["out_strength"], q["in_strength"]
    groups = ref.groups
    kw = {"selfloops": case["sl"]}
    if "prop_out" in case["over"]:
        x = kw["prop_out"] = np.array(case["x"])
    if "prop_in" in case["over"]:
        y = kw["prop_in"] = np.array(case["y"])
    if "groups" in case["over"]:
        groups = kw["groups"] = (groups + 1) % M if M > 1 else groups.copy()
    # graph of the groups: what the links say (that of the graph's own groups)
    B = np.zeros((M, M))
    for i, j in zip(*np.nonzero(ref.A)):
        B[ref.groups[i], ref.groups[j]] += ref.W[i, j]
    names = {p: v for v, p in ref.gpos.items()}
    if case["macro"] == "graph":
        pair = isinstance(names[0], tuple)
        vd = {"a": [], "b": []}
        order = [k for k in case["perm"] if k < M]
        order += [k for k in range(M) if k not in order]
        for k in order:
            vd["a"].append(names[k][0] if pair else names[k])
            vd["b"].append(names[k][1] if pair else 0)
        i, j = np.nonzero(B)
        ed = {"w": B[i, j]}
        for s_, idx in (("s", i), ("d", j)):
            ed[s_ + "a"] = [names[k][0] if pair else names[k] for k in idx]
            ed[s_ + "b"] = [names[k][1] if pair else 0 for k in idx]
        gm = ggen.module("sparse")
        macro = core.sut(
            "DiGraph of the groups", gm.DiGraph, pd.DataFrame(vd), pd.DataFrame(ed),
            v_id=["a", "b"] if pair else "a", src=["sa", "sb"] if pair else "sa",
            dst=["da", "db"] if pair else "da", weight="w")
        core.require({k if not pair else tuple(k): int(v) for k, v in macro.id_dict.items()}
                     == {k: int(v) for k, v in ref.gpos.items()},
                     "groups are numbered %s in the graph and %s in the graph of the groups"
                     % (ref.gpos, dict(macro.id_dict)))
    else:
        macro = B if case["macro"] == "array" else sp.csr_array(B)
    if "adj" in case["over"]:
        B = kw["adj"] = (B == 0).astype(float)
    what = "ConditionalInvariantModel(graph, %s)" % case["macro"]
    m = core.sut(what, cls, g, macro, param=np.array([case["d"]]), **kw)
    r = C13.Ref({"n": n, "M": M, "sl": case["sl"], "x": x, "y": y, "groups": groups.tolist(),
                 "obs": (B != 0).astype(int).tolist(), "d": case["d"]})
    possible = np.array_equal(r.obs > 0, B > 0)
    for k, v in snapshot(g, ref).items():
        core.equal("%s() of the graph after it was given to an ensemble" % k, v, snap[k])
    if not possible:
        return
    tol = dict(rtol=1e-8, atol=1e-10)
    core.close(what + ".expected_num_edges()",
               core.sut("expected_num_edges", m.expected_num_edges), r.C.sum(), **tol)
    core.close(what + ".expected_out_degree()",
               core.sut("expected_out_degree", m.expected_out_degree), r.C.sum(axis=1), **tol)
    core.close(what + ".expected_in_degree()",
               core.sut("expected_in_degree", m.expected_in_degree), r.C.sum(axis=0), **tol)
    h = core.sut("sample(ref_g=...)", m.sample, ref_g=g)
    A = core.dense("A", core.sut("A", h.adjacency_matrix))
    core.equal("links between the groups of a drawn graph", r.aggregate(A) > 0, B > 0)
    # the number of links of the graph is the constraint
    f = core.sut(what, cls, g, macro, **kw)
    core.close(what + ".num_edges", f.num_edges, q["num_edges"])


def classify(case):
    nt, tags = ggen.classify(case["g"])
    tags += [case["model"]] + ["over:" + o for o in case["over"]]
    w = {}
    for e in case["g"]["edges"]:
        w[e[0]] = w.get(e[0], 0) + e[3]
    return len(set(w.values())) > 1 and len(case["g"]["edges"]) > 2, tags


TARGETS = [
    Target("from-graph-%s-%s" % (b, mo), lambda mo=mo, b=b: case_strategy(mo, b),
           lambda c, b=b: check(c, b), classify, quick=50 if b == "local" else 250,
           thorough=1500 if b == "local" else 8000,
           group="%s-%s" % (b, mo if mo != "rand" else "fit"))
    for b in ("dense", "sparse", "local") for mo in mgen.MODELS
]
TARGETS.append(Target("from-graph-conditional", cond_strategy, check_cond, classify, quick=250,
                      thorough=8000, group="sparse-inv"))
