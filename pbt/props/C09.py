"""Fitted ensembles reproduce their constraints; convergence is reported truthfully."""
import contextlib
import io
import warnings

import numpy as np

from .. import core, mgen
from ..core import Target
from ..ggen import st

PROP = "C09"
SPARK = ("fit",)
RULE = (
    "random fitnesses (real, integer, large integers, zero ones), random constraints "
    "(per label or in total; inside, on the border of and beyond what the fitnesses "
    "allow), random starting points, tolerances and iteration limits; after the fit "
    "the expected number of links, summed pair by pair with the fitted parameter, "
    "must equal the constraint whenever convergence is reported, convergence must be "
    "reported for feasible constraints under the default options, lack of it must "
    "come with a warning, and a fresh model must report the same expectation; "
    "non-trivial: 2 distinct positive fitness products and a constraint strictly "
    "inside the feasible range"
)


def fitness(kind):
    s = st()
    if kind == "int":
        return s.one_of(s.integers(0, 6), s.integers(1, 1000))
    if kind == "bigint":
        return s.one_of(s.integers(10**6, 10**7), s.integers(10**9, 10**11), s.just(0))
    if kind == "wide":
        return s.one_of(s.just(0.0), s.floats(-9, 9).map(lambda v: float(10.0 ** v)))
    return s.one_of(
        s.just(0.0),
        s.integers(0, 40).map(lambda v: v / 8),
        s.floats(1e-3, 1e3),
    )


def case_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        n = rep = draw(s.integers(2, 7))
        if draw(s.integers(0, 49)) == 0:
            n = draw(s.sampled_from([24, 130]))
        case = {"model": mo, "n": n, "sl": draw(s.booleans())}
        # constraints are whole numbers of links, handed over as such
        case["whole"] = draw(s.sampled_from([None, None, None, "int", "numpy", "list", "array",
                                             "narrow"]))
        # other constraints may come as sequences of one number
        case["seq"] = draw(s.sampled_from([None, None, "list", "array"]))
        frac = s.one_of(s.integers(1, 38).map(lambda v: v / 40), s.floats(1e-3, 0.95),
                        s.sampled_from([0.0, 1.0, 1.25, 2.0]))
        if mo == "rand":
            case["frac"] = draw(frac)
            case["w"] = draw(s.one_of(s.none(), s.floats(1.1, 50.0)))
            case["disc"] = draw(s.booleans())
            return case
        kind = draw(s.sampled_from(["float", "float", "int", "bigint", "wide"]))
        case["kind"] = kind
        f = fitness(kind)
        multi = mo in ("mfit", "minv")
        L = draw(s.integers(1, 3)) if multi else 1
        if multi:
            case["L"] = L
            case["fmt"] = draw(s.sampled_from(["dense", "csr", "csc", "coo", "zeros"]))
            case["x"] = mgen.cyc([[draw(f) for _ in range(L)] for _ in range(rep)], n)
            case["y"] = mgen.cyc([[draw(f) for _ in range(L)] for _ in range(rep)], n, 1)
            case["per"] = draw(s.booleans())
            case["frac"] = [draw(frac) for _ in range(L if case["per"] else 1)]
            case["via"] = draw(s.sampled_from(["label", "array", "both"])) if case["per"] else "num"
        else:
            case["x"] = mgen.cyc([draw(f) for _ in range(rep)], n)
            case["y"] = mgen.cyc([draw(f) for _ in range(rep)], n, 1)
            case["frac"] = [draw(frac)]
        case["x0"] = draw(s.sampled_from(
            [None, None, "0", "1", "1.", "[1]", "[1.]", "[1e4]", "[1e-6]", "[0]",
             "[0, 2, 1e-3]", "[.5, 0, 7]"]))
        case["opt"] = draw(s.sampled_from([
            {}, {}, {}, {}, {"rtol": 1e-4}, {"rtol": 1e-12}, {"atol": 0.0},
            {"maxiter": 0}, {"maxiter": 2}, {"atol": 0.5}]))
        return case

    return build()


def products(case):
    """Layers of x_i y_j over admissible pairs (flattened)."""
    n = case["n"]
    x = np.array(case["x"], dtype=np.float64).reshape(n, -1)
    y = np.array(case["y"], dtype=np.float64).reshape(n, -1)
    mask = np.ones((n, n), bool)
    if not case["sl"]:
        np.fill_diagonal(mask, False)
    return [np.outer(x[:, k], y[:, k])[mask] for k in range(x.shape[1])]


def constraint(case):
    """(list of targets, list of the maximum each can reach, whether near 1)."""
    Z = products(case)
    if case["model"] in ("mfit", "minv") and not case["per"]:
        top = [float((sum(Z) > 0).sum())]
    else:
        top = [float((z > 0).sum()) for z in Z]
    tgt = [f * t for f, t in zip(case["frac"], top)]
    tgt = [t if f <= 1 else t + 1.0 for t, f in zip(tgt, case["frac"])]
    # (2.0: as many as there are pairs, with fitness or not)
    tgt = [max(t, float(len(z))) if f == 2 else t for t, f, z in zip(tgt, case["frac"], Z)]
    if case.get("whole"):
        tgt = [float(np.floor(t)) if t >= 1 else t for t in tgt]
    return tgt, top


def x0_of(case):
    t = case["x0"]
    if t is None:
        return {}
    L = case.get("L", 1)
    if t.startswith("["):
        v = eval(t)
        return {"x0": np.array((v * L)[:L])}
    return {"x0": eval(t)}


def edges(d, Z, model, single):
    """Expected links by layer (or of the projection) at the given parameters."""
    def dz(k):
        # a pair without fitness has no link however large the parameter
        return np.where(Z[k] == 0, 0.0, d[k] * np.where(Z[k] == 0, 1.0, Z[k]))

    if model in ("mfit", "minv") and single:
        lg = sum(mgen.log_1mp(dz(k), model) for k in range(len(Z)))
        return [float((-np.expm1(lg)).sum())]
    return [float(mgen.link_p(dz(k), model).sum()) for k in range(len(Z))]


def spoken(case, t):
    """A whole number of links in one of the accepted forms."""
    h = case.get("whole")
    if not h or t != round(t):
        return {"list": [t], "array": np.array([t])}.get(case.get("seq"), t)
    return {"int": int(t), "numpy": np.int64(t), "list": [int(t)],
            "array": np.array([int(t)]),
            "narrow": np.uint8(t) if t < 250 else np.float32(t) if t < 1e6 else t}[h]


def spoken_all(case, tgt):
    t = np.array(tgt)
    if case.get("whole") and np.all(t == np.round(t)):
        return t.astype({"int": np.int64, "numpy": np.int32, "list": np.uint8,
                         "array": np.int64, "narrow": np.uint32}[case["whole"]] if t.max() < 250 else np.int64)
    return t


def make(case, backend, **over):
    mo = case["model"]
    kw = {"num_vertices": case["n"], "selfloops": case["sl"]}
    tgt, top = constraint(case)
    dt = np.float64 if case["kind"] in ("float", "wide") else np.int64
    x, y = np.array(case["x"], dtype=dt), np.array(case["y"], dtype=dt)
    if mo in ("mfit", "minv"):
        kw["num_labels"] = case["L"]
        kw["prop_out"] = mgen.as_format(x, case["fmt"])
        kw["prop_in"] = mgen.as_format(y, case["fmt"])
        if not case["per"]:
            kw["num_edges"] = spoken(case, tgt[0])
        elif case["via"] == "array" and case["L"] > 1:
            kw["num_edges"] = spoken_all(case, tgt)
        else:
            kw["num_edges_label"] = spoken_all(case, tgt)
            if case["via"] == "both":
                kw["num_edges"] = 1.0
    else:
        kw["prop_out"], kw["prop_in"] = x, y
        kw["num_edges"] = spoken(case, tgt[0])
    kw.update(over)
    return mgen.construct(case, backend, (), kw)


def check(case, backend):
    mo = case["model"]
    if mo == "rand":
        return check_random(case, backend)
    m = make(case, backend)
    multi = mo in ("mfit", "minv")
    single = not multi or not case["per"]
    tgt, top = constraint(case)
    Z = products(case)
    kw = dict(x0_of(case), **case["opt"])
    what = "%s %s.fit(%s)" % (backend, mgen.NAMES[mo],
                              ", ".join("%s=%s" % i for i in kw.items()))
    with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        try:
            m.fit(**kw)
        except Exception as exc:
            raise core.Violation("%s for constraint %s raised %s: %s" % (
                what, tgt, type(exc).__name__, str(exc)[:300])) from None
    warned = [str(w.message) for w in rec if issubclass(w.category, UserWarning)
              and "converge" in str(w.message)]
    sols = m.solver_output if isinstance(m.solver_output, list) else [m.solver_output]
    core.require(len(sols) == len(tgt), "%s: %d solutions for %d constraints"
                 % (what, len(sols), len(tgt)))
    d = core.dense(what + " param", m.param).astype(float)
    core.require(d.shape == (case.get("L", 1),), "%s: param has shape %s" % (what, d.shape))
    core.require(np.all(d >= 0), "%s: param is %s" % (what, d))
    if multi and single:
        core.require(np.all(d == d[0]), "%s: labels have different parameters %s" % (what, d))
    conv = [bool(np.all(s.converged)) for s in sols]
    core.require((len(warned) > 0) == (not all(conv)),
                 "%s: converged is %s but the warnings were %s" % (what, conv, warned))
    got = edges(d, Z, mo, single and multi)
    rtol, atol = kw.get("rtol", 1e-9), kw.get("atol", 1e-24)
    for k, (e, t, mx, c) in enumerate(zip(got, tgt, top, conv)):
        where = "%s constraint %d: wanted %.12g of at most %g links" % (what, k, t, mx)
        if c:
            err = abs(e - t)
            # rounding of sums and of 1 - (1 - p)
            slack = 1e-13 * max(mx, 1) + 1e-12 * t
            core.require(err <= 1.001 * (atol + rtol * t) + slack,
                         "%s, reports convergence but expects %.12g (parameter %s)"
                         % (where, e, d))
        dflt = "maxiter" not in kw and rtol >= 1e-9
        feasible = dflt and mx > 0 and 0 <= t <= 0.95 * mx
        if t == 0 and mx == 0:
            feasible = dflt
        if feasible:
            core.require(c, "%s, did not converge: expects %.12g (parameter %s)"
                         % (where, e, d))
        elif mx + 0.5 < t and atol < 0.5:
            core.require(not c, "%s, claims to have reached an impossible constraint" % where)
    # what the model itself then says
    ok = all(conv)
    if ok:
        if multi and not single:
            g = core.dense(what, core.sut("expected_num_edges_label",
                                          m.expected_num_edges_label))
            core.close(what + " expected_num_edges_label()", g, np.array(got), rtol=1e-8,
                       atol=1e-11)
        else:
            g = core.dense(what, core.sut("expected_num_edges", m.expected_num_edges))
            core.close(what + " expected_num_edges()", g, np.array(got[0]), rtol=1e-8,
                       atol=1e-11)
    for s in sols:
        core.require(int(s.n_iter) <= kw.get("maxiter", 100),
                     "%s made %s iterations" % (what, s.n_iter))
    for bad in ("mle", "nonsense"):
        core.rejects("fit(method=%r)" % bad, m.fit, method=bad)
    core.require(np.array_equal(np.asarray(m.param, dtype=float), d),
                 "a refused fit changed the parameters")


def check_random(case, backend):
    n = case["n"]
    pairs = n * n if case["sl"] else n * (n - 1)
    E = min(case["frac"], 1.0) * pairs
    if case.get("whole") and E >= 1:
        E = float(np.floor(E))
    kw = {"num_vertices": n, "selfloops": case["sl"], "num_edges": spoken(case, E)}
    if case["w"] is not None and E > 0:
        kw["total_weight"] = E * case["w"]
        if case.get("whole"):
            kw["total_weight"] = spoken(case, float(np.ceil(kw["total_weight"])))
        kw["discrete_weights"] = case["disc"]
    m = mgen.construct(case, backend, (), kw)
    core.sut("fit()", m.fit)
    core.close("fitted link probability", np.asarray(m.param)[0], E / pairs, rtol=1e-12)
    core.close("expected_num_edges()", core.sut("expected_num_edges", m.expected_num_edges), E,
               rtol=1e-12)
    if "total_weight" in kw:
        core.close("expected_total_weight()",
                   core.sut("expected_total_weight", m.expected_total_weight),
                   np.ravel(kw["total_weight"])[0], rtol=1e-9)


def classify(case):
    tags = [case["model"], "selfloops:%s" % case["sl"]]
    if case["model"] == "rand":
        return 0 < case["frac"] < 1, tags
    tags += ["fitness:" + case["kind"], "x0:%s" % case["x0"], "options:%s" % (case["opt"] or None)]
    Z = products(case)
    tgt, top = constraint(case)
    u = np.unique(np.concatenate(Z))
    nt = (u > 0).sum() >= 2 and all(0 < t < m for t, m in zip(tgt, top))
    if any(t > m for t, m in zip(tgt, top)):
        tags.append("impossible constraint")
    if any(t == m for t, m in zip(tgt, top)):
        tags.append("complete graph")
    if case["model"] in ("mfit", "minv"):
        tags.append("per label" if case["per"] else "single parameter")
    return bool(nt), tags


TARGETS = []
for b in ("dense", "sparse"):
    for mo in mgen.MODELS:
        TARGETS.append(Target(
            "fit-%s-%s" % (b, mo),
            lambda mo=mo: case_strategy(mo),
            lambda c, b=b: check(c, b),
            classify,
            quick=500,
            thorough=15000,
            group="%s-%s" % (b, mo if mo != "rand" else "fit"),
        ))
