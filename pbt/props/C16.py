"""Histories of operations on one ensemble object."""
import numpy as np

from .. import core, mgen
from ..core import Target
from ..ggen import st

PROP = "C16"
SPARK = ("history",)
RULE = (
    "random ensembles on which a random history of up to 12 operations is run "
    "(expected link numbers and degrees, neighbour averages with other self-loop "
    "options than the model's, likelihoods of graphs and of layers, samples with and "
    "without weights, requests that must be refused, a refit); each answer is compared "
    "with the explicit probability matrix of the ensemble (for conditional ensembles the "
    "conditional one), after a refit every answer is requested anew (recompute); at the "
    "end all arrays and graphs handed out before are as they were, as are the fitnesses, "
    "graphs and strengths the caller gave; "
    "non-trivial: 2 distinct link probabilities in (0,1) and 3 different operations"
)
DIRS = ("out", "in", "out-in")


def case_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), kinds=("float",), nmin=2,
                                 nmax=5, lmax=3))
        d = s.sampled_from(DIRS)
        sl = s.sampled_from([True, False, None])
        op = s.one_of(
            s.tuples(s.just("e"), s.booleans()),
            s.tuples(s.just("d"), d, s.booleans()),
            s.tuples(s.just("l"), s.sampled_from(("e",) + DIRS), s.booleans()),
            s.tuples(s.just("nnd"), d, d, sl, s.booleans(), s.booleans()),
            s.tuples(s.just("nnd"), d, d, sl, s.booleans(), s.booleans()),
            s.tuples(s.just("nnp"), d, sl, s.booleans()),
            s.tuples(s.just("bad"), s.integers(0, 4)),
            s.tuples(s.just("like"), s.integers(0, 2**12 - 1), sl,
                     s.sampled_from(["array", "csr", "layers"])),
            s.tuples(s.just("sample"), s.integers(0, 1000), sl,
                     s.sampled_from(["plain", "weights", "ref"])),
            s.tuples(s.just("fit"), s.integers(1, 19), s.sampled_from([None, 0.0, 0.5]),
                     s.booleans()),
        ).map(list)
        return {"m": m, "ops": draw(s.lists(op, min_size=2, max_size=12))}

    return build()


def bits(n, k):
    a = np.array([(k >> (b % 12)) & 1 for b in range(n * n)], dtype=float)
    return a.reshape(n, n)


def strengths(mc):
    n = mc["n"]
    so = np.array([1.0 + (7 * i) % 5 for i in range(n)])
    si = so[::-1].copy()
    if mgen.is_multi(mc):
        return {"out_strength_label": np.array([so] * mc["L"]).T.copy(),
                "in_strength_label": np.array([si] * mc["L"]).T.copy()}
    return {"out_strength": so, "in_strength": si}


def handover(A, form):
    import scipy.sparse as sp

    return sp.csr_array(A) if form == "csr" else A


def check(case, backend):
    mc = dict(case["m"])
    kept = core.Kept()
    kw = mgen.kwargs(mc)
    for k, v in kw.items():
        kept.array("the argument %s of the ensemble" % k, v)
    if mc["model"] == "rand":
        kw["param"] = np.array([float(np.ravel(kw["param"])[0]), 0.5])
        kw["discrete_weights"] = False
    m = mgen.construct(mc, backend, (), kw)
    hist = []
    fitted = False
    last = None
    for op in case["ops"]:
        k = op[0]
        where = " after %s" % hist if hist else ""
        rc = fitted
        P, T = mgen.probs(mc)
        tol = dict(rtol=1e-8, atol=1e-10)
        if k == "e":
            hist.append("edges")
            what = "expected_num_edges" + where
            core.close(what, core.sut(what, m.expected_num_edges, recompute=op[1] or rc),
                       P.sum(), **tol)
        elif k == "d" or (k == "l" and T is None):
            name = {"out": "expected_out_degree", "in": "expected_in_degree"}.get(
                op[1], "expected_degree")
            hist.append(name)
            und, out, inn = mgen.degrees(P)
            got = core.sut(name + where, getattr(m, name), recompute=op[2] or rc)
            core.close(name + where, kept.array("the answer of " + name, got),
                       {"out": out, "in": inn}.get(op[1], und), **tol)
        elif k == "l":
            res = [mgen.degrees(Q) for Q in T]
            name, want = {
                "e": ("expected_num_edges_label", T.sum(axis=(1, 2))),
                "out": ("expected_out_degree_by_label", np.array([r[1] for r in res]).T),
                "in": ("expected_in_degree_by_label", np.array([r[2] for r in res]).T),
                "out-in": ("expected_degree_by_label", np.array([r[0] for r in res]).T),
            }[op[1]]
            hist.append(name)
            got = core.sut(name + where, getattr(m, name), recompute=op[2] or rc)
            core.close(name + where, kept.array("the answer of " + name, got), want, **tol)
        elif k in ("nnd", "nnp"):
            sl = op[3] if k == "nnd" else op[2]
            Q, lay = mgen.probs(mc, selfloops=mc["sl"] if sl is None else sl)
            und, out, inn = mgen.degrees(Q)
            if k == "nnd":
                kw = dict(ndir=op[1], ddir=op[2], selfloops=sl, recompute=op[4] or rc,
                          deg_recompute=op[5] or rc)
                what = "expected_av_nn_degree(%s)" % kw
                prop = {"out": out, "in": inn, "out-in": und}[op[2]]
                got = core.sut(what + where, m.expected_av_nn_degree, **kw)
            else:
                kw = dict(ndir=op[1], selfloops=sl, deg_recompute=op[3] or rc)
                what = "expected_av_nn_property(%s)" % kw
                prop = kept.array("the property", np.arange(mc["n"]) * 1.5 - 1)
                got = core.sut(what + where, m.expected_av_nn_property, prop, **kw)
            hist.append(what)
            kept.array("the answer of " + what, got)
            mgen.nn_close(what + where, got, Q, prop, op[1], lay is not None,
                          rtol=1e-8, atol=1e-8)
        elif k == "bad":
            n = mc["n"]
            b = op[1]
            if b == 0:
                hist.append("refused property")
                core.rejects("a property of the wrong length", m.expected_av_nn_property,
                             np.ones(n + 1), selfloops=not mc["sl"])
            elif b == 1:
                hist.append("refused neighbourhood")
                core.rejects("an unknown neighbourhood", m.expected_av_nn_property,
                             np.ones(n), ndir="up", selfloops=not mc["sl"])
            elif b == 2:
                hist.append("refused degree direction")
                core.rejects("an unknown degree direction", m.expected_av_nn_degree,
                             ddir="up", selfloops=not mc["sl"])
            elif b == 3:
                hist.append("refused graph")
                core.rejects("a graph of the wrong size", m.log_likelihood,
                             np.zeros((n + 1, n + 1)))
            else:
                hist.append("refused weights")
                core.rejects("an unknown kind of weights", m.sample, weights="nope")
        elif k == "like":
            hist.append("log_likelihood")
            n = mc["n"]
            layers = op[3] == "layers" and mgen.is_multi(mc)
            A = bits(n, op[1])
            if layers:
                A = np.array([np.roll(A, i) for i in range(mc["L"])])
            sl = mc["sl"] if op[2] is None else op[2]
            if not sl:
                A[..., np.arange(n), np.arange(n)] = 0
            if op[1] % 2:
                lp, lq, lps, lqs = mgen.logs(mc)
                A = mgen.possible(A, *((lps, lqs) if layers else (lp, lq)), sl,
                                  op[1] if op[1] % 8 == 1 else None)
            what = "log_likelihood(%s, selfloops=%s)" % (
                A.astype(int).tolist() if A.size < 100 else A.shape, op[2])
            if mc["model"] == "rand" and mc["p"] in (0, 1):
                continue
            want = mgen.loglike(mc, A, selfloops=op[2])
            B = kept.array("the graph of a likelihood", handover(A, op[3]))
            got = core.dense(what, core.sut(what + where, m.log_likelihood, B,
                                            selfloops=op[2]))
            core.close(what + where, got, want, rtol=1e-8, atol=1e-8)
        elif k == "sample":
            kw = {} if op[2] is None else {"selfloops": op[2]}
            Q, QT = mgen.probs(mc, selfloops=op[2])
            if op[3] == "weights":
                if mc["model"] == "rand":
                    if not (0 < mc["p"] <= 1):
                        continue
                    kw["weights"] = "random"
                else:
                    kw["weights"] = "cremb"
                    for a, x in strengths(mc).items():
                        kw[a] = kept.array("the strengths given", x)
            elif op[3] == "ref" and last is not None:
                kw["ref_g"] = last
            hist.append("sample(%s)" % sorted(kw))
            core.seed_all(op[1])
            what = "sample(%s)%s" % (sorted(kw), where)
            g = last = kept.graph("a graph drawn before", core.sut(what, m.sample, **kw))
            A = core.dense("sample", core.sut("adjacency", g.adjacency_matrix,
                                              directed=True, weighted=False))
            core.require(A.shape == Q.shape and not np.any((A != 0) & (Q == 0)),
                         what + " has an impossible link")
            core.require(not np.any((A == 0) & (Q == 1)), what + " lacks a certain link")
            core.require(bool(g.weighted) == (op[3] == "weights"),
                         "%s has weighted=%s" % (what, g.weighted))
        elif k == "fit":
            Pmax = np.ones((mc["n"], mc["n"]))
            if mc["model"] == "rand":
                if not mc["sl"]:
                    np.fill_diagonal(Pmax, 0)
                m.num_edges = Pmax.sum() * op[1] / 20
                m.total_weight = 2 * m.num_edges
                core.sut("fit()" + where, m.fit)
                mc["p"] = float(m.param[0])
            else:
                x, y = mgen.arrays(mc)
                multi = mgen.is_multi(mc)
                if multi:
                    S = [np.outer(x[:, i] > 0, y[:, i] > 0) for i in range(mc["L"])]
                else:
                    S = [np.outer(x > 0, y > 0)]
                whole = multi and op[3]
                if whole:
                    S = [np.any(S, axis=0)]
                if not mc["sl"]:
                    for q in S:
                        np.fill_diagonal(q, False)
                mx = np.array([q.sum() for q in S], dtype=float)
                if np.any(mx == 0):
                    continue
                if multi and not whole:
                    m.num_edges_label = kept.array("the numbers of links to fit",
                                                   mx * op[1] / 20)
                else:
                    m.num_edges = mx[0] * op[1] / 20
                kw = {}
                if multi:
                    m.per_label = not whole
                if op[2] is not None:
                    kw["x0"] = kept.array("the initial conditions of a fit",
                                          np.full(mc.get("L", 1), op[2]))
                core.sut("fit()" + where, m.fit, **kw)
                par = core.dense("param", m.param).astype(float)
                if multi:
                    mc["d"] = [float(v) for v in par]
                else:
                    mc["d"] = float(par[0])
            hist.append("fit")
            fitted = True
    kept.check(hist)
    core.require(bool(m.selfloops) == mc["sl"],
                 "the self-loops option changed during the history %s" % hist)
    P, _ = mgen.probs(mc)
    core.close("expected_num_edges at the end of %s" % hist,
               core.sut("expected_num_edges", m.expected_num_edges, recompute=fitted),
               P.sum(), rtol=1e-8, atol=1e-10)
    core.close("expected_out_degree at the end of %s" % hist,
               core.sut("expected_out_degree", m.expected_out_degree, recompute=fitted),
               P.sum(axis=1), rtol=1e-8, atol=1e-10)


def classify(case):
    nt, tags = mgen.classify(case["m"])
    kinds = {str(o[:2]) for o in case["ops"]}
    for o in {o[0] for o in case["ops"]}:
        tags.append("op:" + o)
    return nt and len(kinds) >= 3, tags


def cond_strategy():
    from . import C13

    s = st()

    @s.composite
    def build(draw):
        c = draw(C13.case_strategy(dzero=False, nmax=5))
        op = s.one_of(
            s.tuples(s.just("e"), s.booleans()),
            s.tuples(s.just("d"), s.sampled_from(DIRS), s.booleans()),
            s.tuples(s.just("d"), s.sampled_from(DIRS), s.booleans()),
            s.tuples(s.just("like"), s.integers(0, 2**12 - 1), s.booleans()),
            s.tuples(s.just("sample"), s.integers(0, 1000),
                     s.sampled_from([None, None, "cremb", "wagg"])),
            s.tuples(s.just("bad"), s.integers(0, 1)),
            s.tuples(s.just("fit"), s.integers(1, 18)),
        ).map(list)
        c["ops"] = draw(s.lists(op, min_size=2, max_size=10))
        return c

    return build()


def check_cond(case):
    import contextlib
    import io
    import warnings

    from . import C13

    n = case["n"]
    d = case["d"]
    r = C13.Ref(case)
    kept = core.Kept()
    given = {"prop_out": np.array(case["x"]), "prop_in": np.array(case["y"]),
             "groups": np.array(case["groups"], dtype=case["gdt"]),
             "adj": C13.observed(case, r)}
    for k, v in given.items():
        kept.array("the argument %s of the ensemble" % k, v)
    m = C13.make(case, r, **given)
    hist = []
    rc = False
    tol = dict(rtol=1e-7, atol=1e-10)

    def ask(name, again, want):
        what = name + "()" + (" after %s" % hist if hist else "")
        got = core.sut(what, getattr(m, name), recompute=again or rc)
        core.close(what, kept.array("the answer of " + name, got), want, **tol)
        hist.append(name)

    for op in case["ops"]:
        where = " after %s" % hist if hist else ""
        if op[0] == "e":
            ask("expected_num_edges", op[1], r.C.sum())
        elif op[0] == "d":
            name, want = {"out": ("expected_out_degree", r.C.sum(axis=1)),
                          "in": ("expected_in_degree", r.C.sum(axis=0)),
                          "out-in": ("expected_degree", r.U.sum(axis=1))}[op[1]]
            ask(name, op[2], want)
        elif op[0] == "like":
            A = bits(n, op[1])
            if not case["sl"]:
                np.fill_diagonal(A, 0)
            if op[2]:
                A = np.where((r.Z > 0) & (r.obs[np.ix_(r.g, r.g)] > 0), 1.0, 0.0)
            what = "log_likelihood(%s)%s" % (A.astype(int).tolist(), where)
            kept.array("the graph of a likelihood", A)
            core.close(what, core.sut(what, m.log_likelihood, A), r.loglike(A), rtol=1e-7,
                       atol=1e-7)
            hist.append("log_likelihood")
        elif op[0] == "sample":
            kw = {}
            if op[2]:
                s = np.array([1.0 + (7 * i) % 5 for i in range(n)])
                kw = dict(weights=op[2], out_strength=kept.array("the strengths given", s),
                          in_strength=kept.array("the strengths given", s[::-1].copy()))
            core.seed_all(op[1])
            what = "sample(%s)%s" % (op[2] or "", where)
            g = kept.graph("a graph drawn before", core.sut(what, m.sample, **kw))
            A = core.dense(what, core.sut(what, g.adjacency_matrix, directed=True,
                                          weighted=False))
            core.require(not np.any((A != 0) & (r.C == 0)), what + " has an impossible link")
            core.equal(what + " seen from the groups", r.aggregate(A) > 0, r.obs > 0)
            hist.append("sample")
        elif op[0] == "bad":
            if op[1]:
                core.rejects("a graph of the wrong size", m.log_likelihood,
                             np.zeros((n + 1, n + 1)))
            else:
                core.rejects("an unknown kind of weights", m.sample, weights="nope")
            hist.append("refused")
        else:
            lo = float(r.obs.sum())
            hi = float(((r.Z > 0) & (r.obs[np.ix_(r.g, r.g)] > 0)).sum())
            if hi <= lo:
                continue
            m.num_edges = lo + op[1] / 20 * (hi - lo)
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                core.sut("fit()" + where, m.fit)
            d = float(np.asarray(m.param)[0])
            r = C13.Ref(case, d=d)
            rc = True
            hist.append("fit")
    kept.check(hist)


def classify_cond(case):
    from . import C13

    nt, tags = C13.classify(case)
    for o in {o[0] for o in case["ops"]}:
        tags.append("op:" + o)
    return nt and len({str(o[:2]) for o in case["ops"]}) >= 3, tags


TARGETS = [
    Target(
        "history-%s-%s" % (b, mo),
        lambda mo=mo: case_strategy(mo),
        lambda c, b=b: check(c, b),
        classify,
        quick=400,
        thorough=12000,
        group="%s-%s" % (b, mo if mo != "rand" else "fit"),
    )
    for b in ("dense", "sparse")
    for mo in mgen.MODELS
]
TARGETS.append(Target("history-conditional", cond_strategy, check_cond, classify_cond, quick=300,
                      thorough=8000, group="conditional"))
