"""Weighted graphs sampled from an ensemble."""
import numpy as np

from .. import core, ggen, mgen, stats
from ..core import Target
from ..ggen import st
from . import C11

PROP = "C12"
SPARK = ("weighted",)
RULE = (
    "random ensembles with random strengths (real and integer, zero strengths "
    "included, handed over or taken from the fitnesses) from which weighted graphs "
    "are drawn under a generated seed; links must follow the probabilities of the "
    "ensemble, each weight is positive, and the weights, mapped to the unit interval "
    "with the stated distribution (exponential with mean s_out s_in / (s_tot p) for "
    "strengths, exponential or geometric for random ensembles), must fill it "
    "uniformly within Bernstein bounds (false alarm < 1e-12 each); expected total "
    "weights equal the closed form; strengths with different totals are refused; "
    "non-trivial: a link probability in (0,1) and 2 distinct mean weights"
)


def strengths(kind):
    s = st()
    if kind == "int":
        return s.one_of(s.integers(0, 9), s.integers(1, 300), s.just(4 * 10**9))
    if kind in ("uint8", "int32"):
        return s.integers(0, 250 if kind == "uint8" else 10**6)
    if kind == "float32":
        return s.integers(0, 400).map(lambda v: v / 8)
    return s.one_of(s.integers(0, 40).map(lambda v: v / 8), s.floats(0.01, 100.0),
                    s.sampled_from([0.0, 1e12]))


def case_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), nmin=2, nmax=6, lmax=3, big=24,
                                 moderate=True))
        n, L = m["n"], m.get("L", 1)
        case = {
            "m": m,
            "sl": draw(s.sampled_from([None, None, True, False])),
            "seed": draw(s.integers(0, 2**32 - 1)),
            "how": draw(s.sampled_from(
                ["given", "given", "default"] if mo != "rand"
                else ["given", "random", "random"])),
        }
        if case["how"] == "random":
            case["disc"] = draw(s.booleans())
            q = draw(s.one_of(s.sampled_from([0.5, 0.25]), s.floats(0.01, 0.95)))
            if case["disc"]:
                q = draw(s.sampled_from([q, 0.0]))
            else:
                q = draw(s.sampled_from([q, 3.0, 1e-6]))
            case["q"] = q
            return case
        if case["how"] == "default":
            # totals of both sides must agree: one side is a reordering
            k = draw(s.integers(1, max(1, n - 1)))
            m["y"] = m["x"][k:] + m["x"][:k]
            return case
        kind = draw(s.sampled_from(["float", "int"] * 3 + ["uint8", "int32", "float32"]))
        case["skind"] = kind
        f = strengths(kind)
        so = mgen.cyc([mgen.cyc([draw(f) for _ in range(min(L, 3))], L)
                       for _ in range(min(n, 6))], n)
        k = draw(s.integers(0, n - 1))
        case["so"] = so
        case["si"] = so[k:] + so[:k]
        case["sfmt"] = draw(s.sampled_from(["dense", "csr", "csc", "zeros", "unsorted"]))
        case["bad"] = draw(s.sampled_from([None] * 7 + ["more", "less", "bit"]))
        # one side given, the other left to the fitnesses
        case["only"] = draw(s.sampled_from([None] * 3 + ["out", "in"]))
        if mo == "rand":
            case["only"] = None
        if case["only"]:
            # the given side is a reordering of the fitnesses of the other
            k = draw(s.integers(0, n - 1))
            other = m["y"] if case["only"] == "out" else m["x"]
            case["skind"] = m["kind"]
            case["so"] = [v if isinstance(v, list) else [v] for v in other[k:] + other[:k]]
            case["si"] = case["so"]
            case["bad"] = None if case["bad"] == "bit" else case["bad"]
        return case

    return build()


def spec(case):
    """(keyword arguments, strengths out, strengths in) as (n, L) arrays."""
    mc = case["m"]
    multi = mgen.is_multi(mc)
    if case["how"] == "default":
        x, y = mgen.arrays(mc)
        return {}, x.reshape(mc["n"], -1), y.reshape(mc["n"], -1)
    kind = case["skind"]
    dt = {"int": np.int64, "float": np.float64}.get(kind, kind)
    so, si = np.array(case["so"], dtype=dt), np.array(case["si"], dtype=dt)
    only = case.get("only")
    if only:
        x, y = [a.reshape(mc["n"], -1) for a in mgen.arrays(mc)]
        if only == "out":
            si = y
        else:
            so = x
    if case["bad"] and only == "out":
        so = so * 2
        so[np.unravel_index(int(np.argmax(so)), so.shape)] += 1
    elif case["bad"]:
        si = si.copy()
        k = np.unravel_index(int(np.argmax(si)), si.shape)
        if case["bad"] == "less" and si[k] > 1:
            si[k] = si[k] / 2
        elif case["bad"] == "bit" and kind == "float":
            si[k] = si[k] * (1.01 if len(si) % 2 else 0.99) if si[k] else 1
        else:
            si[k] = si[k] * 2 + 1
    if multi:
        kw = {"out_strength_label": mgen.as_format(so, case["sfmt"]),
              "in_strength_label": mgen.as_format(si, case["sfmt"])}
    else:
        kw = {"out_strength": so[:, 0], "in_strength": si[:, 0]}
    kw = {k: v for k, v in kw.items() if not only or k.startswith(only)}
    return kw, *map(wide, (so, si))



def wide(a):
    """Strengths with room for their products and sums."""
    return a.astype(np.int64 if a.dtype.kind in "iu" else np.float64)


def uniform(what, U, groups):
    """U: numbers which must be independent and uniform in (0, 1)."""
    edges = np.array([1e-3, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999])
    for name, u in [("all links", U)] + groups:
        k = len(u)
        if k < 30:
            continue
        c = (u[:, None] < edges[None]).sum(axis=0)
        stats.check_counts("%s: weights of %s below the quantiles %s, quantile number "
                           % (what, name, edges.tolist()), c, k * edges,
                           k * edges * (1 - edges))


def check(case, backend, S=None):
    mc = case["m"]
    n, L = mc["n"], mc.get("L", 1)
    multi = mgen.is_multi(mc)
    sl = mc["sl"] if case["sl"] is None else case["sl"]
    kw = {} if case["sl"] is None else {"selfloops": case["sl"]}
    P, T = mgen.probs(mc, selfloops=sl)
    P3 = T if multi else P[None]
    disc = False
    if case["how"] == "random":
        disc = case["disc"]
        m = mgen.build(mc, backend, discrete_weights=disc,
                       param=np.array([mc["p"], case["q"]]))
        kw["weights"] = "random"
        W = core.sut("expected_total_weight", m.expected_total_weight)
        E = mgen.probs(mc)[0].sum()
        core.close("expected_total_weight()", W, E / (1 - case["q"]) if disc else E / case["q"],
                   rtol=1e-9)
        M = np.full((1, n, n), 0.0 if disc else 1 / case["q"])
        zero = np.zeros(P3.shape, dtype=bool)
    else:
        m = mgen.build(mc, backend)
        kw["weights"] = "cremb"
        a, so, si = spec(case)
        kw.update(a)
        if case.get("bad"):
            if not P3.sum() > 0:
                return
            core.rejects("sample() with strengths of different total", m.sample, **kw)
            return
        tot = so.sum(axis=0).astype(float)
        if not multi and tot[0] == 0:
            return
        with np.errstate(all="ignore"):
            M = np.array([np.outer(so[:, k].astype(float), si[:, k].astype(float)) / tot[k]
                          for k in range(L)]) / P3
        zero = np.array([np.outer(so[:, k], si[:, k]) == 0 for k in range(L)])
        if np.any(zero & (P3 > 0)) and np.any(tot == 0):
            return  # a layer without any strength has no weights to give
    if S is None:
        S = int(np.clip(12000 // P3.size, 2, 300))
    core.seed_all(case["seed"])
    what = "%s %s.sample(weights=%s%s)" % (
        backend, mgen.NAMES[mc["model"]], kw["weights"], " discrete" if disc else "")
    X = np.empty((S,) + P3.shape)
    gm = ggen.module(backend)
    cls = gm.MultiDiGraph if multi else gm.DiGraph
    for t in range(S):
        g = core.sut(what, m.sample, **kw)
        B = C11.layers(what, g, multi)
        if B.shape != P3.shape:
            raise core.Violation("%s has links of shape %s" % (what, B.shape))
        X[t] = B
        if t == 0:
            core.require(isinstance(g, cls), "%s is a %s" % (what, type(g).__name__))
            C11.names(what, g, None, multi, n, L)
            if not np.any(zero & (P3 > 0)):
                # (a link of weight zero is a matter of representation)
                C11.measures(what, g, ggen.Ref.of(B, multi=multi))
    core.require(np.all(X >= 0) and np.all(np.isfinite(X)),
                 "%s has weights which are not positive numbers: %s" % (what, X[~(X >= 0)][:5]))
    core.require(not np.any(X[:, zero]), "%s gives weight to vertices without strength" % what)
    live = ~zero
    if disc:
        core.require(np.all(X == np.round(X)), "%s has weights which are not whole" % what)
    stats.check_binary(what, X.reshape(S, -1) > 0, np.where(live, P3, 0.0).ravel(), P3.shape)
    # distribution of weights
    if disc:
        w = X[X > 0]
        q = case["q"]
        k = np.arange(0, 12)
        F = 1 - q**k  # P(w <= k)
        c = (w[:, None] <= k[None]).sum(axis=0)
        if q == 0:
            core.require(np.all(w == 1), "%s: weights must be 1" % what)
        stats.check_counts("%s: weights not above " % what, c, len(w) * F,
                           len(w) * F * (1 - F))
        return
    idx = np.nonzero(X > 0)
    U = -np.expm1(-X[idx] / np.broadcast_to(M, P3.shape)[idx[1:]])
    groups = []
    cell = np.ravel_multi_index(idx[1:], P3.shape)
    for c in np.unique(cell) if S >= 30 else ():
        groups.append(("link %s" % (list(map(int, np.unravel_index(c, P3.shape))),),
                       U[cell == c]))
    uniform(what, U, groups)
    # weights of different links are independent (disjoint pairs of links)
    Z = np.zeros(X.shape)
    Z[idx] = U - 0.5
    Z = Z.reshape(S, -1)
    for name, a, b in stats.matchings(P3.shape):
        both = ((Z[:, a] != 0) & (Z[:, b] != 0)).sum()
        got = (Z[:, a] * Z[:, b]).sum()
        lim = float(stats.bound(both / 144.0, scale=0.25))
        core.require(abs(got) <= lim + 1e-9 * both,
                     "%s: weights of links of %s are not independent: sum of products %.6g, "
                     "allowed %.6g" % (what, name, got, lim))


def classify(case):
    mc = case["m"]
    P, T = mgen.probs(mc)
    tags = [mc["model"], "strengths:" + case["how"]]
    nt = bool(np.any((P > 0) & (P < 1)))
    if case["how"] == "random":
        tags.append("discrete" if case["disc"] else "continuous")
        return nt, tags
    if case.get("bad"):
        return False, tags + ["unbalanced strengths"]
    if case.get("only"):
        tags.append("only one side given")
    _, so, si = spec(case)
    if np.any(so == 0):
        tags.append("zero strength")
    return nt and len(np.unique(np.outer(so[:, 0].astype(float), si[:, 0]))) > 1, tags


TARGETS = []
for b in ("dense", "sparse"):
    for mo in mgen.MODELS:
        TARGETS.append(Target(
            "weighted-%s-%s" % (b, mo),
            lambda mo=mo: case_strategy(mo),
            lambda c, b=b: check(c, b),
            classify,
            quick=120,
            thorough=1500,
            group="%s-%s" % (b, mo if mo != "rand" else "fit"),
        ))
