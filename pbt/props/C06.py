"""Input which describes no graph and no ensemble is refused."""
import numpy as np

from .. import core, ggen, mgen
from ..core import Target
from ..ggen import st
from . import C13

PROP = "C06"
RULE = (
    "a random valid input (tables of a graph, arguments of an ensemble, a fitted "
    "ensemble or a graph to be asked) is spoiled in exactly one random way at a random "
    "place; the call must raise and the caller's data, and the answers of an object which "
    "exists already, must be what they were; the unspoiled input must be accepted; "
    "non-trivial: every spoiled input of at least 2 vertices"
)
DIRS = ("out", "in", "out-in")


def refused(what, fn, *args, **kw):
    core.rejects(what, fn, *args, **kw)


# ---------------------------------------------------------------------- graphs
GF = ("repeated id", "unknown src", "unknown dst", "unknown pair", "missing src",
      "zero weight", "negative weight", "nan weight", "v no table", "e no table",
      "src/dst mix", "no such column")


def graph_faults():
    s = st()

    @s.composite
    def build(draw):
        f = draw(s.sampled_from(GF))
        c = draw(ggen.graph_case(
            big=False, min_edges=1,
            weights="weighted" if f.endswith("weight") else "any"))
        return {"g": c, "fault": f, "at": draw(s.integers(0, 200)),
                "how": draw(s.integers(0, 3))}

    return build()


def foreign(kind, ids, how):
    """An identifier of the same type which no vertex has."""
    if kind == "pair":
        have = set(map(tuple, ids))
        for a in sorted({x[0] for x in ids}):
            for b in sorted({x[1] for x in ids}):
                if (a, b) not in have and how % 2:
                    return [a, b]
        return ["zz", 999]
    if kind == "str":
        return ("zzzzz", max(ids) + "x", "", " ")[how] if how < 2 else "q" + "".join(ids)
    if kind == "float":
        v = (np.nextafter(max(ids), np.inf), min(ids) - 1, max(ids) + 1000,
             min(ids) - 0.5)[how]
        return float(v if v not in ids else np.nextafter(v, -np.inf if how % 2 else np.inf))
    return int((max(ids) + 1, min(ids) - 1, max(ids) + 1000, min(ids) - 2)[how])


def spoil_tables(case):
    import pandas as pd

    c = case["g"]
    v, e, kw = ggen.frames(c)
    f, how = case["fault"], case["how"]
    at = case["at"] % max(len(e), 1)
    multi = c["kind"] == "pair"

    def col(side):
        k = kw[side]
        return k if isinstance(k, list) else [k]

    def put(side, vals):
        for name, x in zip(col(side), vals):
            t = list(e[name])
            t[at] = x
            e[name] = t

    if f == "repeated id":
        r = v.iloc[[case["at"] % len(v)]]
        v = pd.concat([v, r] if how % 2 else [r, v])
    elif f in ("unknown src", "unknown dst"):
        x = foreign(c["kind"], c["ids"], how)
        put(f[-3:], x if multi else [x])
    elif f == "unknown pair":
        x = foreign(c["kind"], c["ids"], how)
        put("src", x if multi else [x])
        put("dst", x if multi else [x])
    elif f == "missing src":
        if c["kind"] in ("float", "str"):
            put("src" if how % 2 else "dst", [None if c["kind"] == "str" else np.nan])
        else:
            x = foreign(c["kind"], c["ids"], how)
            put("src", x if multi else [x])
    elif f.endswith("weight"):
        w = e["w"].to_numpy().astype(
            np.int64 if c["wkind"] == "int" and not f.startswith("nan") else np.float64)
        w[at] = {"zero": 0, "negative": -w[at], "nan": np.nan}[f.split()[0]]
        e["w"] = w
    elif f == "v no table":
        v = [v.to_dict("list"), v.to_numpy(), list(c["ids"]), None][how]
    elif f == "e no table":
        e = [e.to_dict("list"), e.to_numpy(), [tuple(x) for x in c["edges"]], None][how]
    elif f == "src/dst mix":
        if multi:
            kw["src" if how % 2 else "dst"] = col("src" if how % 2 else "dst")[0]
        else:
            kw["src" if how % 2 else "dst"] = col("src" if how % 2 else "dst") * 2
    elif f == "no such column":
        k = sorted(k for k in kw)[case["at"] % len(kw)]
        kw[k] = ["nowhere", "else"] if isinstance(kw[k], list) else "nowhere"
    return v, e, kw


def check_graph(case, backend):
    import pandas as pd

    c = case["g"]
    cls = getattr(ggen.module(backend), c["cls"])
    v, e, kw = spoil_tables(case)
    keep = [x.copy(deep=True) if isinstance(x, pd.DataFrame) else None for x in (v, e)]
    refused("%s %s with %s" % (backend, c["cls"], case["fault"]), cls, v, e, **kw)
    for name, a, b in (("vertex", keep[0], v), ("edge", keep[1], e)):
        if a is not None:
            core.require(a.equals(b[list(a.columns)]),
                         "the caller's %s table was changed by a refused construction" % name)
    ggen.build(c, backend)


def query_faults():
    s = st()

    @s.composite
    def build(draw):
        return {"g": draw(ggen.graph_case(big=False)),
                "q": draw(s.sampled_from(["size", "ndir", "ddir", "nn ndir"])),
                "d": draw(s.integers(1, 3)), "how": draw(s.integers(0, 3)),
                "two": draw(s.booleans())}

    return build()


def wrong_size(n, d, how, two):
    k = (n + d, max(n - d, 0), n * 2, 0)[how]
    return np.ones((k, n) if two else k)


BADDIR = ("up", "Out", "out_in", "")


def check_query(case, backend):
    g = ggen.build(case["g"], backend)
    n = len(case["g"]["ids"])
    q = case["q"]
    directed = case["g"]["cls"] in ("DiGraph", "MultiDiGraph")
    before = {k: core.dense(k, core.sut(k, getattr(g, k))).copy()
              for k in ("num_edges", "degree", "strength")}
    A = core.dense("A", core.sut("adjacency", g.adjacency_matrix, weighted=True)).copy()
    if q == "size" or not directed:
        refused("a property with wrong number of vertices", g.average_nn_property,
                wrong_size(n, case["d"], case["how"], case["two"]))
    elif q == "ndir":
        refused("unknown neighbourhood", g.average_nn_property, np.ones(n),
                ndir=BADDIR[case["how"]])
    elif q == "nn ndir":
        refused("unknown neighbourhood", g.average_nn_degree, ndir=BADDIR[case["how"]])
    else:
        refused("unknown degree", g.average_nn_degree, ddir=BADDIR[case["how"]])
    for k, x in before.items():
        core.equal(k + " after a refused request", core.sut(k, getattr(g, k)), x)
    core.equal("links after a refused request",
               core.sut("adjacency", g.adjacency_matrix, weighted=True), A)


# ------------------------------------------------------------------- ensembles
COMMON = ["unknown argument", "no n", "n fraction", "n zero", "n negative", "n text",
          "no constraint", "E negative", "E text", "E two", "param negative",
          "param count", "param text", "no graph"]
FIT = ["no x", "no y", "x negative", "y negative", "x nan", "y nan", "x size", "y size",
       "x shape", "y shape", "wrong graph"]
MULTI = ["no L", "L fraction", "L zero", "L negative", "L text", "EL count", "EL negative",
         "E count", "E and EL"]
RAND = ["W negative", "W text", "W two"]
SPARK = ["blocks zero", "blocks negative", "blocks fraction", "blocks text", "no context"]


def faults(mo, backend):
    f = list(COMMON)
    if mo == "rand":
        f += RAND
    else:
        f += FIT
    if mo in ("mfit", "minv"):
        f += MULTI
    if backend == "local":
        f += SPARK
    return f


def model_faults(mo, backend):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), big=False))
        f = faults(mo, backend)
        return {"m": m, "fault": draw(s.sampled_from(f)),
                "more": draw(s.lists(s.sampled_from(f), max_size=5)),
                "at": draw(s.integers(0, 200)), "how": draw(s.integers(0, 3)),
                "v": draw(s.one_of(s.integers(1, 5), s.floats(1e-6, 1e3)))}

    return build()


UNKNOWN = ("foo", "num_edge", "selfloop", "prop")


def small_graph(backend, cls):
    import pandas as pd

    gm = ggen.module("sparse" if backend == "local" else backend)
    v = pd.DataFrame({"id": [0, 1, 2]})
    e = pd.DataFrame({"s": [0, 1], "d": [1, 2], "l": [0, 1]})
    kw = {"edge_label": "l"} if cls.startswith("Multi") else {}
    return getattr(gm, cls)(v, e, v_id="id", src="s", dst="d", **kw)


def small_tables(n):
    import pandas as pd

    v = pd.DataFrame({"id": list(range(n))})
    e = pd.DataFrame({"s": [0], "d": [n - 1]})
    return v, e, dict(v_id="id", src="s", dst="d")


def spoil_args(case, backend):
    """(positional arguments, keyword arguments, with context)"""
    mc, f, how, v = case["m"], case["fault"], case["how"], case["v"]
    n, L = mc["n"], mc.get("L", 1)
    kw = mgen.kwargs(mc)
    args = []
    multi = mgen.is_multi(mc)
    texts = ("abc", None, "3", {})
    if f == "unknown argument":
        kw[UNKNOWN[how]] = 1
    elif f == "no n":
        del kw["num_vertices"]
    elif f == "n fraction":
        kw["num_vertices"] = n + (0.5, 0.25, 0.001, 0.999)[how]
    elif f == "n zero":
        kw["num_vertices"] = 0
    elif f == "n negative":
        kw["num_vertices"] = -n
    elif f == "n text":
        kw["num_vertices"] = texts[how]
    elif f == "no constraint":
        del kw["param"]
    elif f == "E negative":
        kw["num_edges"] = (-v, np.array([-v]), -1, -0.5)[how]
        if how < 2:
            del kw["param"]
    elif f == "E text":
        kw["num_edges"] = ("abc", "3", "12", {})[how]
        if how % 2:
            del kw["param"]
    elif f == "E two":
        # one more value than labels
        kw["num_edges"] = (np.ones(L + 1 + (L == 1)) if multi else
                           [np.ones(2), [1, 2], np.ones(3), (1.0, 2.0)][how])
        if how % 2:
            del kw["param"]
    elif f == "param negative":
        p = np.array(np.atleast_1d(kw["param"]), dtype=float)
        p[case["at"] % len(p)] = -v
        kw["param"] = p
    elif f == "param count":
        k = len(np.atleast_1d(kw["param"]))
        k = {"rand": (1, 3, 4, 0)[how]}.get(mc["model"], (2, 3, 5, 0)[how])
        if multi and k in (1, L):
            k = L + 1 if L > 1 else 2
        kw["param"] = np.full(k, 0.5)
    elif f == "param text":
        kw["param"] = ("abc", np.array(["a"] * (2 if mc["model"] == "rand" else 1)),
                       "0.5", np.array([None] * (2 if mc["model"] == "rand" else 1)))[how]
    elif f == "no graph":
        args = [({}, np.ones((n, n)), "graph", 3)[how]]
    elif f == "wrong graph":
        args = [small_graph(backend, ("Graph", "DiGraph" if multi else "Graph", "MultiGraph",
                                      "Graph")[how])]
    elif f in ("no x", "no y"):
        del kw["prop_out" if f[-1] == "x" else "prop_in"]
    elif f[0] in "xy" and f[1] == " ":
        k = "prop_out" if f[0] == "x" else "prop_in"
        a = np.array(mc["x" if f[0] == "x" else "y"], dtype=float)
        if f.endswith("negative"):
            a.flat[case["at"] % a.size] = -v
        elif f.endswith("nan"):
            a.flat[case["at"] % a.size] = np.nan
        elif f.endswith("size"):
            a = np.concatenate([a, a])[: (n + 1, max(n - 1, 0), 2 * n, n + 1)[how]]
        elif multi:
            a = a.ravel() if how % 2 or n == L else a.T
        else:
            a = a.reshape(-1, 1) if how % 2 else a.reshape(1, -1)
        if multi and a.ndim == 2 and a.size:
            a = mgen.as_format(a, mc["fmt"])
        kw[k] = a
    elif f == "no L":
        del kw["num_labels"]
    elif f == "L fraction":
        kw["num_labels"] = L + (0.5, 0.25, 0.001, 0.999)[how]
    elif f == "L zero":
        kw["num_labels"] = 0
    elif f == "L negative":
        kw["num_labels"] = -L
    elif f == "L text":
        kw["num_labels"] = texts[how]
    elif f == "EL count":
        kw["num_edges_label"] = np.ones((L + 1, L - 1, 2 * L, 0)[how])
    elif f == "EL negative":
        a = np.ones(L)
        a[case["at"] % L] = -v
        kw["num_edges_label"] = a
    elif f == "E count":
        kw["num_edges"] = np.ones((L + 1 + (L == 1), L + 2, 2 * L + 1, L + 3)[how])
    elif f == "E and EL":
        kw["num_edges"] = np.ones(L)
        kw["num_edges_label"] = np.ones(L)
    elif f == "W negative":
        kw["total_weight"] = (-v, np.array([-v]), -1, -0.5)[how]
    elif f == "W text":
        kw["total_weight"] = ("abc", "3", "12", {})[how]
    elif f == "W two":
        kw["total_weight"] = [np.ones(2), [1, 2], np.ones(3), (1.0, 2.0)][how]
    elif f == "blocks zero":
        kw["p_blocks"] = 0
    elif f == "blocks negative":
        kw["p_blocks"] = -3
    elif f == "blocks fraction":
        kw["p_blocks"] = 2.5
    elif f == "blocks text":
        kw["p_blocks"] = texts[how]
    return args, kw, f != "no context"


def check_model(case, backend):
    mgen.build(case["m"], backend)
    for f in [case["fault"]] + case["more"]:
        # a wrong number matters in every place
        places = range(case["m"].get("L", 2)) if f in ("param negative", "EL negative") else (
            case["at"],)
        for at in places:
            check_fault(dict(case, fault=f, at=at), backend)


def check_fault(case, backend):
    from .. import sparkctx

    mc = case["m"]
    args, kw, ctx = spoil_args(case, backend)
    cls = getattr(mgen.module(backend), mgen.NAMES[mc["model"]])
    if backend == "local" and ctx:
        args = [sparkctx.local(0)] + args
    keep = {k: np.array(v.toarray() if hasattr(v, "toarray") else v)
            for k, v in kw.items() if k.startswith("prop")}
    refused("%s %s with %s (%s)" % (backend, cls.__name__, case["fault"],
                                    {k: v for k, v in kw.items()}), cls, *args, **kw)
    for k, a in keep.items():
        b = kw[k]
        b = np.array(b.toarray() if hasattr(b, "toarray") else b)
        core.require(np.array_equal(a, b, equal_nan=True), "%s was changed" % k)


# ------------------------------------------------------- requests to ensembles
ASK = ["x0 negative", "x0 text", "x0 count", "method", "mle", "no constraint", "before fit",
       "size", "ndir", "ddir", "like size", "like type", "weights", "before fit"]


def ask_faults(mo):
    s = st()

    @s.composite
    def build(draw):
        return {"m": draw(mgen.model_case(models=(mo,), big=False, kinds=("float",), nmax=5)),
                "fault": draw(s.sampled_from(ASK)),
                "more": draw(s.lists(s.sampled_from(ASK), max_size=3)), "how": draw(s.integers(0, 3)),
                "E": draw(s.integers(1, 3)) / 2, "two": draw(s.booleans()),
                "d": draw(s.integers(1, 3))}

    return build()


def queries(mc):
    n = mc["n"]
    q = [("expected_num_edges", ()), ("expected_degree", ()), ("expected_out_degree", ()),
         ("expected_in_degree", ()), ("expected_av_nn_degree", ()),
         ("expected_av_nn_property", (np.ones(n),)),
         ("log_likelihood", (np.zeros((n, n)),)), ("sample", ())]
    if mc["model"] == "rand":
        q += [("expected_total_weight", ())]
    if mgen.is_multi(mc):
        q += [("expected_num_edges_label", ()), ("expected_degree_by_label", ()),
              ("expected_out_degree_by_label", ()), ("expected_in_degree_by_label", ())]
    return q


def check_ask(case, backend):
    for k, f in enumerate([case["fault"]] + case["more"]):
        check_request(dict(case, fault=f, how=(case["how"] + k) % 4), backend)


def check_request(case, backend):
    mc, f, how = case["m"], case["fault"], case["how"]
    n = mc["n"]
    rand = mc["model"] == "rand"
    if f in ("before fit", "x0 negative", "x0 text", "x0 count", "method", "mle"):
        kw = mgen.kwargs(mc)
        if f == "before fit" or how % 2:
            del kw["param"]
        kw["num_edges"] = case["E"]
        m = mgen.construct(mc, backend, (), kw)
        if f == "before fit":
            for name, args in queries(mc):
                refused("%s.%s before the fit" % (mgen.NAMES[mc["model"]], name),
                        getattr(m, name), *args)
            return
        if rand:
            return
        L = mc.get("L", 1)
        k = dict(x0=None)
        if f == "x0 negative":
            x0 = np.ones(L)
            x0[(case["d"] + how) % L] = -case["E"]
            k = dict(x0=x0)
        elif f == "x0 text":
            k = dict(x0=("abc", np.array(["a"] * L), "x" * L, np.array([None] * L))[how])
        elif f == "x0 count":
            k = dict(x0=np.ones((L + 1, L + 2, 2 * L + 1, 0)[how]))
        elif f == "method":
            k = dict(method=("Density", "ml", "", None)[how])
        else:
            k = dict(method="mle")
        refused("fit(%s)" % k, m.fit, **k)
        if how % 2:
            core.require(not hasattr(m, "param"),
                         "a refused fit(%s) left the ensemble with parameters" % k)
            for name, args in queries(mc):
                refused("%s after a refused fit" % name, getattr(m, name), *args)
            return
    else:
        m = mgen.build(mc, backend)
        if f == "no constraint":
            if mgen.is_multi(mc) and how < 2:
                m = mgen.build(mc, backend, per_label=bool(how))
            refused("fit() without constraint", m.fit)
        elif f == "size":
            refused("property of wrong size", m.expected_av_nn_property,
                    wrong_size(n, case["d"], how, case["two"]))
        elif f == "ndir":
            refused("neighbourhood", m.expected_av_nn_property, np.ones(n), ndir=BADDIR[how])
            refused("neighbourhood", m.expected_av_nn_degree, ndir=BADDIR[how])
        elif f == "ddir":
            refused("degree", m.expected_av_nn_degree, ddir=BADDIR[how])
        elif f == "like size":
            k = (n + 1, max(n - 1, 0), 2 * n, n + 3)[how]
            import scipy.sparse as sp

            A = np.zeros(((k, k), (n, k), (k, n), (k, k))[how])
            refused("log_likelihood of a matrix of shape %s" % (A.shape,), m.log_likelihood,
                    sp.csr_array(A) if case["two"] and A.size else A)
            if case["d"] == 1 and n > 1:
                C = np.zeros(((1, 1, n, n), (n,), (n, n, 1, 1), (n * n,))[how])
                refused("log_likelihood of an array of shape %s" % (C.shape,),
                        m.log_likelihood, C)
            if mgen.is_multi(mc):
                B = np.zeros(((mc["L"] + 1, n, n), (mc["L"], n + 1, n + 1),
                              (mc["L"], n, n + 1), (mc["L"] + 2, n + 1, n))[how])
                refused("log_likelihood of a tensor of shape %s" % (B.shape,),
                        m.log_likelihood, [sp.csr_array(b) for b in B] if case["two"] else B)
        elif f == "like type":
            refused("log_likelihood", m.log_likelihood, ("graph", None, 3, {})[how])
        elif f == "weights":
            refused("sample", m.sample, weights=("Cremb", "geom", True, "")[how])
    P, T = mgen.probs(mc)
    und, out, inn = mgen.degrees(P)
    tol = dict(rtol=1e-8, atol=1e-10)
    core.close("expected_degree() after a refused request (%s)" % f,
               core.sut("expected_degree", m.expected_degree), und, **tol)
    core.close("expected_num_edges() after a refused request (%s)" % f,
               core.sut("expected_num_edges", m.expected_num_edges), P.sum(), **tol)


# ----------------------------------------------------------------- conditional
CF = ["E negative", "E text", "E two", "param text", "x0 count", "x0 text", "no E", "like type",
      "wrong graph", "wrong second", "weights",
      "unknown argument", "no n", "n fraction", "n zero", "no x", "y negative", "y nan", "x size",
      "n negative", "n text", "no groups", "no adj", "adj shape", "groups count", "groups size", "groups text",
      "param negative", "no constraint", "x0 negative", "mle", "like size", "before fit"]


def cond_faults():
    s = st()

    @s.composite
    def build(draw):
        return {"c": draw(C13.case_strategy()), "fault": draw(s.sampled_from(CF)),
                "more": draw(s.lists(s.sampled_from(CF), max_size=5)), "at": draw(s.integers(0, 50)), "how": draw(s.integers(0, 3))}

    return build()


def check_cond(case, backend=None):
    for k, f in enumerate([case["fault"]] + case["more"]):
        check_cond_fault(dict(case, fault=f, how=(case["how"] + k) % 4))


def check_cond_fault(case):
    from graph_ensembles.sparse.models import ConditionalInvariantModel as cls

    c, f, how = case["c"], case["fault"], case["how"]
    n, M = c["n"], c["M"]
    r = C13.Ref(c)
    args = []
    kw = dict(num_vertices=n, prop_out=np.array(c["x"]), prop_in=np.array(c["y"]),
              param=np.array([c["d"]]), groups=np.array(c["groups"], dtype=c["gdt"]),
              adj=C13.observed(c, r), selfloops=c["sl"])
    m = core.sut("ConditionalInvariantModel", cls, **kw)
    if f in ("x0 negative", "mle", "like size", "x0 count", "x0 text", "no E", "like type",
             "weights"):
        if f == "like size":
            refused("log_likelihood", m.log_likelihood, np.zeros((n + 1 + how, n + 1)))
        elif f == "like type":
            refused("log_likelihood", m.log_likelihood, ("graph", None, 3, {})[how])
        elif f == "weights":
            refused("sample", m.sample, weights=("Cremb", "geom", True, "")[how])
        elif f == "no E":
            refused("fit() without constraint", m.fit)
        elif f in ("x0 count", "x0 text"):
            m.num_edges = 1.0
            x0 = (np.ones((2, 3, 5, 0)[how]) if f == "x0 count" else
                  ("abc", np.array(["a"]), "x", np.array([None]))[how])
            refused("fit(x0=%r)" % (x0,), m.fit, x0=x0)
        else:
            m.num_edges = 1.0
            refused("fit", m.fit, **({"x0": np.array([(-1.0, -3.0, -1e-3, -1e-9)[how]])} if f[0] == "x" else
                                     {"method": ("mle", "x", "", None)[how]}))
        core.close("expected_num_edges() after a refused request",
                   core.sut("expected_num_edges", m.expected_num_edges), r.C.sum(),
                   rtol=1e-8, atol=1e-10)
        return
    if f == "before fit":
        del kw["param"]
        m = core.sut("ConditionalInvariantModel", cls, num_edges=1.0, **kw)
        for name, args in (("expected_num_edges", ()), ("expected_degree", ()),
                           ("expected_out_degree", ()), ("expected_in_degree", ()),
                           ("log_likelihood", (np.zeros((n, n)),)), ("sample", ())):
            refused(name + " before the fit", getattr(m, name), *args)
        return
    if f == "unknown argument":
        kw[UNKNOWN[how]] = 1
    elif f == "no n":
        del kw["num_vertices"]
    elif f == "n fraction":
        kw["num_vertices"] = n + 0.5
    elif f == "n zero":
        kw["num_vertices"] = 0
    elif f == "no x":
        del kw["prop_out" if how % 2 else "prop_in"]
    elif f == "y negative":
        k = "prop_in" if how % 2 else "prop_out"
        kw[k] = kw[k].astype(float)
        kw[k][case["at"] % n] = (-1.0, -0.5, -1e-9, -1e-200)[case["at"] % 4]
    elif f == "y nan":
        k = "prop_in" if how % 2 else "prop_out"
        kw[k] = kw[k].astype(float)
        kw[k][case["at"] % n] = np.nan
    elif f == "n negative":
        kw["num_vertices"] = -n
    elif f == "n text":
        kw["num_vertices"] = ("abc", str(n), np.array([n, n]), {})[how]
    elif f == "x size":
        kw["prop_out" if how % 2 else "prop_in"] = np.ones((n + 1, n - 1, 2 * n, 0)[how])
    elif f == "no groups":
        del kw["groups"]
    elif f == "no adj":
        del kw["adj"]
    elif f == "adj shape":
        kw["adj"] = np.ones((M, M + 1) if how % 2 else (M + 1, M))
    elif f == "groups count":
        kw["adj"] = np.ones((M + 1 + how, M + 1 + how))
    elif f == "groups size":
        g = np.array(c["groups"] + [M - 1] * 3)
        kw["groups"] = g[: n + 1] if how % 2 else g[g.tolist().index(M - 1):][: n - 1]
        if len(kw["groups"]) == n:
            kw["groups"] = g[: n + 2]
    elif f == "groups text":
        kw["groups"] = (np.array(["g%d" % k for k in c["groups"]]) if how % 2
                        else np.array(c["groups"]) + 0.5)
    elif f == "param negative":
        kw["param"] = np.array([(-0.5, -1e-9)[how // 2]]) if how % 2 else np.array([0.5, 0.5])
    elif f == "param text":
        kw["param"] = ("abc", np.array(["a"]), "0.5", np.array([None]))[how]
    elif f == "E negative":
        kw["num_edges"] = (-1, np.array([-0.5]), -1.5, [-3])[how]
    elif f == "E text":
        kw["num_edges"] = ("abc", "3", "12", {})[how]
    elif f == "E two":
        kw["num_edges"] = [np.ones(2), [1, 2], np.ones(3), (1.0, 2.0)][how]
    elif f == "no constraint":
        del kw["param"]
    elif f == "wrong graph":
        args = [(small_graph("sparse", "Graph"), kw["adj"], "graph", 3)[how]]
    elif f == "wrong second":
        v, e, gk = small_tables(n)
        del kw["adj"]
        args = [ggen.module("sparse").DiGraph(v, e, **gk),
                (small_graph("sparse", "Graph"), "graph", 3, [[1]])[how]]
    if args:
        refused("ConditionalInvariantModel(%s) (%s)" % (args, f), cls, *args, **kw)
        return
    refused("ConditionalInvariantModel with %s (%s)" % (f, kw), cls, **kw)


def classify_g(case):
    return len(case["g"]["ids"]) >= 2, [case["g"]["cls"], case.get("fault") or case["q"]]


def classify_m(case):
    return case["m"]["n"] >= 2, [case["m"]["model"], case["fault"]]


TARGETS = []
for b in ("dense", "sparse"):
    TARGETS.append(Target("tables-" + b, graph_faults, lambda c, b=b: check_graph(c, b),
                          classify_g, quick=900, thorough=30000, group="graph-" + b))
    TARGETS.append(Target("requests-" + b, query_faults, lambda c, b=b: check_query(c, b),
                          classify_g, quick=300, thorough=6000, group="graph-" + b))
for b in ("dense", "sparse", "local"):
    for mo in mgen.MODELS:
        grp = b + ("-multi" if mo.startswith("m") else "-plain")
        TARGETS.append(Target(
            "arguments-%s-%s" % (b, mo), lambda mo=mo, b=b: model_faults(mo, b),
            lambda c, b=b: check_model(c, b), classify_m, quick=400, thorough=8000, group=grp))
        TARGETS.append(Target(
            "asked-%s-%s" % (b, mo), lambda mo=mo: ask_faults(mo),
            lambda c, b=b: check_ask(c, b), classify_m,
            quick=60 if b == "local" else 200, thorough=3000, group=grp))
TARGETS.append(Target(
    "conditional", cond_faults, check_cond, lambda c: (True, [c["fault"]]), quick=400,
    thorough=8000, group="graph-sparse"))
