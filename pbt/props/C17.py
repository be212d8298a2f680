"""The spark backend answers as the reference does, however the work is divided."""
import numpy as np

from .. import core, ggen, mgen, sparkctx
from ..core import Target
from ..ggen import st
from . import C07, C08, C09, C10, C11, C12, C16

PROP = "C17"
RULE = (
    "random ensembles of the spark backend with random numbers of blocks (sizes with "
    "and without remainder, fewer vertices than blocks) are asked for expectations, "
    "neighbour averages, likelihoods, confusion matrices, fits, samples and sequences of requests, which are "
    "compared with the reference used for the other backends; most cases run on an "
    "in-process stand-in for the spark context (random order of arrival of partial "
    "results), some on a real local spark; non-trivial: as for the same question to "
    "the other backends"
)
ASSUMPTIONS = ["cases which ask the stand-in for an operation it does not offer are left "
               "undecided (counted in the classes); the cases on the real spark remain"]
DIRS = ("out", "in", "out-in")
finish = sparkctx.finish


REAL = [False]


def spread(draw, m, big):
    """More vertices, so that more and uneven blocks occur."""
    s = st()
    m["order"] = draw(s.integers(0, 5))
    if big and draw(s.integers(0, 3)) == 0:
        n = draw(s.sampled_from([23, 31] if REAL[0] else [20, 23, 29, 31, 45, 57, 110]))
        for k in ("x", "y"):
            if k in m:
                m[k] = mgen.cyc(m[k], n, 1 if k == "y" else 0)
        m["n"] = n
    m["blocks"] = draw(s.sampled_from([None, 1, 2, 3, 4, 5, 10, 100]))


def model_cases(mo, big=True, **kw):
    s = st()

    @s.composite
    def build(draw):
        kw.setdefault("nmin", 1)
        m = draw(mgen.model_case(models=(mo,), big=False, **kw))
        spread(draw, m, big)
        return m

    return build()


# -------------------------------------------------------------- expectations
def expected(case, backend):
    m = mgen.build(case, backend)
    if case["order"] % 2 and mgen.is_multi(case):
        # labels first
        P, T = mgen.probs(case)
        core.close("expected_num_edges_label()",
                   core.sut("expected_num_edges_label()", m.expected_num_edges_label),
                   T.sum(axis=(1, 2)), rtol=1e-9, atol=1e-12 * T.size)
    C07.compare("%s %s (blocks %s)" % (backend, mgen.NAMES[case["model"]], case["blocks"]),
                m, case)


def nn_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        c = draw(C08.case_strategy(mo))
        spread(draw, c["m"], True)
        c["prop"] = mgen.cyc(c["prop"], c["m"]["n"], 1)
        return c

    return build()


def nn(case, backend):
    C08.compare(mgen.build(case["m"], backend), case)


# --------------------------------------------------------------- likelihoods
def like_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        c = draw(C10.case_strategy(mo))
        m = c["m"]
        n0 = m["n"]
        spread(draw, m, True)
        n = m["n"]
        if n != n0:
            size = n * n * (m["L"] if c["form"].startswith("T") else 1)
            A = c["A"]
            c["A"] = [A[(3 * i + i // 11) % len(A)] for i in range(size)]
        m["blocks"] = draw(s.sampled_from([None, 1, 2, 3, 4]))
        return c

    return build()


# --------------------------------------------------------- confusion matrices
def confusion_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        c = draw(like_strategy(mo).filter(lambda c: not c["form"].startswith("T")))
        c["th"] = draw(s.lists(s.one_of(s.floats(0, 1), s.sampled_from([0.0, 1.0, 0.5])),
                               min_size=1, max_size=4))
        return c

    return build()


def confusion(case, backend):
    mc = case["m"]
    A = C10.links(case)
    m = mgen.build(mc, backend)
    g = C10.hand_over(A, case["form"], backend, "")
    th = np.array(case["th"])
    kw = {} if case["sl"] is None else {"selfloops": case["sl"]}
    what = "confusion_matrix(%s, %s)" % (case["form"], th)
    sl = mc["sl"] if case["sl"] is None else case["sl"]
    P, _ = mgen.probs(mc, selfloops=True)
    mask = np.ones(P.shape, bool)
    if not sl:
        np.fill_diagonal(mask, False)
    if np.any(np.abs(P[:, :, None] - th) < 1e-9 * (1 + 0 * th)) and not np.all(
            np.isin(P[np.abs(P[:, :, None] - th).min(axis=2) < 1e-9], (0.0, 1.0))):
        return  # a probability is too close to a threshold to tell
    got = core.sut(what, m.confusion_matrix, g, thresholds=th, **kw)
    for k, t in enumerate(th):
        up = P >= t
        want = [(up & (A != 0)), (up & (A == 0)), (~up & (A == 0)), (~up & (A != 0))]
        for name, r, w in zip(("true positives", "false positives", "true negatives",
                               "false negatives"), got, want):
            core.equal("%s at threshold %s of %s" % (name, t, what),
                       np.asarray(r)[k], (w & mask).sum())


def auto_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        c = draw(like_strategy(mo).filter(lambda c: not c["form"].startswith("T")))
        c["count"] = draw(s.sampled_from([None, 1, 2, 5, 30]))
        return c

    return build()


def confusion_auto(case, backend):
    """Automatic thresholds: as many as asked, each pair counted once at each of
    them, from the smallest to the largest positive probability."""
    mc = case["m"]
    multi = mgen.is_multi(mc)
    if mc["model"] == "rand":
        ok = mc["p"] > 0
    else:
        x, y = mgen.arrays(mc)
        z = np.outer(x.ravel()[x.ravel() > 0], y.ravel()[y.ravel() > 0])
        d = mc["d"][0] if multi else mc["d"]
        ok = z.size > 0 and 0 < d * z.min() and np.isfinite(d * z.max())
    if not ok:
        return  # no positive probabilities to choose from
    A = C10.links(case)
    m = mgen.build(mc, backend)
    P, _ = mgen.probs(mc, selfloops=True)
    k = case["count"]
    kw = {} if k is None else {"thresholds": k}
    got = [core.dense("confusion", r) for r in core.sut(
        "confusion_matrix(thresholds=%s)" % k, m.confusion_matrix,
        C10.hand_over(A, case["form"], backend, ""), **kw)]
    k = 20 if k is None else k
    mask = np.ones(P.shape, bool)
    if not mc["sl"]:
        np.fill_diagonal(mask, False)
    for r in got:
        core.require(r.shape == (k,), "%s thresholds instead of %s" % (r.shape, k))
    tp, fp, tn, fn = got
    core.equal("tp + fn", tp + fn, np.full(k, ((A != 0) & mask).sum()))
    core.equal("fp + tn", fp + tn, np.full(k, ((A == 0) & mask).sum()))
    if multi or mc["model"] == "rand":
        return
    p = mgen.link_p(d * z, mc["model"])
    th = np.geomspace(p.min(), p.max(), k)
    # counts with thresholds moved by rounding either way
    Q, B = P[mask], A[mask] != 0
    for i, t in enumerate(th):
        lo = ((Q >= t * (1 + 1e-9)) & B).sum(), ((Q >= t * (1 + 1e-9)) & ~B).sum()
        hi = ((Q >= t * (1 - 1e-9)) & B).sum(), ((Q >= t * (1 - 1e-9)) & ~B).sum()
        core.require(lo[0] <= tp[i] <= hi[0] and lo[1] <= fp[i] <= hi[1],
                     "%s true and %s false positives at threshold %d of %d (%.6g), expected "
                     "%s and %s" % (tp[i], fp[i], i, k, t, lo[0], lo[1]))


# ------------------------------------------------------------------- fitting
def fit_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        c = draw(C09.case_strategy(mo))
        spread(draw, c, True)
        return c

    return build()


def history_strategy(mo):
    s = st()

    @s.composite
    def build(draw):
        c = draw(C16.case_strategy(mo))
        spread(draw, c["m"], not REAL[0])
        return c

    return build()


# ------------------------------------------------------------------ sampling
def sample_strategy(mo, mod):
    s = st()

    @s.composite
    def build(draw):
        c = draw(mod.case_strategy(mo))
        m = c["m"]
        if mod is C11 and m["n"] <= 7:
            spread(draw, m, True)
        else:
            m["order"] = draw(s.integers(0, 5))
            m["blocks"] = draw(s.sampled_from([None, 1, 2, 3]))
        return c

    return build()


def tagged(f, sub=None):
    def g(case):
        nt, tags = f(case)
        m = case[sub] if sub else case
        if m["n"] >= 20:
            tags.append("20 or more vertices")
        return nt, tags

    return g


def sized(strat, mo, backend):
    REAL[0] = backend == "spark"
    return strat(mo)


KINDS = [
    # name, strategy, check, classify, quick, thorough, real quick, real thorough
    ("expected", lambda mo: model_cases(mo), expected, tagged(mgen.classify),
     250, 6000, 3, 60),
    ("nn", nn_strategy, nn, tagged(C08.classify, "m"), 200, 5000, 3, 60),
    ("like", like_strategy, lambda c, b: C10.check(c, b), tagged(C10.classify, "m"),
     250, 6000, 4, 80),
    ("confusion", confusion_strategy, confusion, tagged(C10.classify, "m"), 150, 3000, 3, 40),
    ("auto", auto_strategy, confusion_auto, tagged(C10.classify, "m"), 100, 2000, 2, 20),
    ("fit", fit_strategy, lambda c, b: C09.check(c, b), tagged(C09.classify),
     120, 3000, 2, 30),
    ("history", history_strategy, lambda c, b: C16.check(c, b), tagged(C16.classify, "m"),
     80, 2000, 1, 20),
    ("sample", lambda mo: sample_strategy(mo, C11), None, tagged(C11.classify, "m"),
     30, 600, 1, 12),
    ("weighted", lambda mo: sample_strategy(mo, C12), None, tagged(C12.classify, "m"),
     30, 600, 1, 12),
]


def sampler(mod):
    def check(case, backend):
        # real spark draws in other processes: few draws, no seed
        if backend == "spark":
            mod.check(case, backend, S=12)
        else:
            mod.check(case, backend, S=None)

    return check


TARGETS = []
for b in ("local", "spark"):
    for mo in mgen.MODELS:
        for name, strat, chk, cla, q, t, rq, rt in KINDS:
            if name == "sample":
                chk = sampler(C11)
            elif name == "weighted":
                chk = sampler(C12)
            TARGETS.append(Target(
                "%s-%s-%s" % (name, b, mo),
                lambda mo=mo, strat=strat, b=b: sized(strat, mo, b),
                lambda c, b=b, chk=chk: chk(c, b),
                cla,
                quick=q if b == "local" else rq,
                thorough=t if b == "local" else rt,
                group="%s-%s" % (b, "fit" if mo == "rand" and b == "spark" else mo),
                shrink_s=60,
            ))
