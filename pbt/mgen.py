"""Generated ensembles: strategies, construction through the public classes and
the reference model (explicit probability matrices)."""
import numpy as np

from . import core, sparkctx
from .ggen import st

MODELS = ("rand", "fit", "inv", "mfit", "minv")
NAMES = {
    "rand": "RandomDiGraph",
    "fit": "FitnessModel",
    "inv": "ScaleInvariantModel",
    "mfit": "MultiFitnessModel",
    "minv": "MultiInvariantModel",
}


def is_multi(case):
    return case["model"] in ("mfit", "minv")


# --------------------------------------------------------------- strategies
def fitness(kind):
    s = st()
    if kind == "int":
        return s.one_of(s.just(0), s.integers(0, 6), s.integers(1, 200),
                        s.integers(1, 200).map(lambda v: v if v % 8 else 4 * 10**9 + v))
    return s.one_of(
        s.just(0.0),
        s.integers(0, 40).map(lambda v: v / 8),
        s.floats(1e-3, 50.0),
    )


def pvalue():
    s = st()
    return s.one_of(
        s.sampled_from([0.0, 1.0, 0.5]),
        s.integers(0, 64).map(lambda v: v / 64),
        s.floats(1e-6, 1 - 1e-6),
    )


def dvalue():
    s = st()
    return s.one_of(
        s.sampled_from([0.0, float("inf")]),
        s.sampled_from([1.0, 0.1, 10.0, 1e-4, 100.0, 1e9, 1e20, 1e300,
                        1e-9, 1e-18, 1e-40]),
        s.floats(1e-4, 20.0),
    )


def cyc(vals, n, shift=0):
    if len(vals) == n:
        return vals
    return [vals[(i + shift * (i // 7)) % len(vals)] for i in range(n)]


def model_case(models=MODELS, nmax=7, nmin=1, lmax=4, kinds=("float", "float", "int"),
               dpos=False, big=True, moderate=False):
    """moderate: half of the cases get parameters for which the links are
    neither rare nor certain (needed where frequencies are counted).
    big: one case in 50 (or in big + 1) has many vertices, one many layers."""
    s = st()

    @s.composite
    def build(draw):
        m = draw(s.sampled_from(list(models)))
        n = draw(s.integers(nmin, nmax))
        rep = n
        if big and draw(s.integers(0, 49 if big is True else big)) == 0:
            # many vertices, a few kinds of them
            n = draw(s.sampled_from([24, 130, 260]))
        case = {"model": m, "n": n, "sl": draw(s.booleans())}
        tune = moderate and draw(s.booleans())
        if m == "rand":
            case["p"] = draw(pvalue())
            if tune:
                case["p"] = draw(s.integers(12, 52)) / 64
            case["pform"] = draw(s.sampled_from([None] * 3 + ["float", "int", "numpy"]))
            return case
        kind = draw(s.sampled_from(list(kinds)))
        case["kind"] = kind
        # types in which the arguments are handed over (where they fit)
        case["xdt"] = draw(s.sampled_from([None, None, None, "int8", "uint8", "int32", "uint32"]
                                          if kind == "int" else [None] * 4 + ["float32"]))
        case["pform"] = draw(s.sampled_from([None] * 4 + ["float", "int", "int array", "numpy"]))
        f = fitness(kind)
        d = dvalue()
        if dpos:
            d = d.filter(lambda v: v > 0)
        if m in ("mfit", "minv"):
            L = draw(s.integers(1, lmax))
            if big and draw(s.integers(0, 49)) == 0:
                L = draw(s.sampled_from([9, 33, 130] if n < 24 else [9, 20]))
            case["L"] = L
            lay = min(L, lmax)
            f = s.lists(f, min_size=lay, max_size=lay).map(lambda v: cyc(v, L))
            case["x"] = cyc([draw(f) for _ in range(rep)], n)
            case["y"] = cyc([draw(f) for _ in range(rep)], n, 1)
            if draw(s.booleans()):
                case["d"] = [draw(d)] * L
                case["single"] = True
            else:
                case["d"] = cyc([draw(d) for _ in range(lay)], L)
                case["single"] = False
            case["fmt"] = draw(s.sampled_from(["dense", "csr", "csc", "coo", "zeros", "unsorted"]))
        else:
            case["x"] = cyc([draw(f) for _ in range(rep)], n)
            case["y"] = cyc([draw(f) for _ in range(rep)], n, 1)
            case["d"] = draw(d)
        if tune:
            tune_d(case, [draw(s.sampled_from([0.25, 0.5, 1.0, 2.0]))
                          for _ in range(case.get("L", 1))])
        return case

    return build()


def tune_d(case, mids):
    """Parameters such that the median non-zero product has the given values."""
    x = np.array(case["x"], dtype=float).reshape(case["n"], -1)
    y = np.array(case["y"], dtype=float).reshape(case["n"], -1)
    d = []
    for k, mid in enumerate(mids):
        z = np.outer(x[:, k], y[:, k])
        z = z[z > 0]
        d.append(float(mid / np.median(z)) if z.size else 1.0)
    if is_multi(case):
        case["d"] = [d[0]] * len(d) if case["single"] else d
    else:
        case["d"] = d[0]


# ------------------------------------------------------------- construction
def module(backend):
    if backend == "dense":
        import graph_ensembles.models as m
    elif backend == "sparse":
        import graph_ensembles.sparse.models as m
    else:
        import graph_ensembles.spark.models as m
    return m


def arrays(case):
    dt = np.int64 if case.get("kind") == "int" else np.float64
    return np.array(case["x"], dtype=dt), np.array(case["y"], dtype=dt)


def explicit_zeros(a):
    """CSR array in which every entry, zeros included, is stored."""
    import scipy.sparse as sp

    n, m = a.shape
    return sp.csr_array(
        (a.ravel().copy(), np.tile(np.arange(m), n), np.arange(n + 1) * m),
        shape=a.shape,
    )


def unsorted_csr(a):
    """CSR array whose entries are stored in decreasing column order."""
    import scipy.sparse as sp

    c = sp.csr_array(a)
    ind, dat = c.indices.copy(), c.data.copy()
    for i in range(a.shape[0]):
        k = slice(c.indptr[i], c.indptr[i + 1])
        ind[k], dat[k] = ind[k][::-1].copy(), dat[k][::-1].copy()
    return sp.csr_array((dat, ind, c.indptr.copy()), shape=a.shape)


def as_format(a, fmt):
    import scipy.sparse as sp

    if fmt == "dense":
        return a
    if fmt == "csr":
        return sp.csr_array(a)
    if fmt == "csc":
        return sp.csc_array(a)
    if fmt == "coo":
        return sp.coo_array(a)
    if fmt == "unsorted":
        return unsorted_csr(a)
    return explicit_zeros(a)


def typed(a, dt):
    if dt is None or not np.array_equal(a.astype(dt).astype(a.dtype), a):
        return a
    return a.astype(dt)


def scalar(d, form):
    """A single parameter in one of the accepted forms."""
    if form == "float":
        return float(d)
    if form == "numpy":
        return np.float64(d)
    if form in ("int", "int array") and d == round(min(d, 1e9)):
        return int(d) if form == "int" else np.array([int(d)])
    return None


def kwargs(case):
    """Keyword arguments which fully specify the ensemble."""
    kw = {"num_vertices": case["n"], "selfloops": case["sl"]}
    if case.get("pform") == "numpy":
        kw = {"num_vertices": np.int64(case["n"]), "selfloops": np.bool_(case["sl"])}
    if case["model"] == "rand":
        kw["param"] = np.array([case["p"], case.get("q", 0.0)])
        v = scalar(case["p"], case.get("pform"))
        if v is not None and not case.get("q"):
            kw["param"] = v
        return kw
    x, y = [typed(a, case.get("xdt")) for a in arrays(case)]
    if is_multi(case):
        kw["num_labels"] = case["L"]
        kw["prop_out"] = as_format(x, case["fmt"])
        kw["prop_in"] = as_format(y, case["fmt"])
        kw["param"] = (
            float(case["d"][0]) if case["single"] else np.array(case["d"], dtype=float)
        )
        if case["single"]:
            v = scalar(case["d"][0], case.get("pform"))
            if v is not None:
                kw["param"] = v
    else:
        kw["prop_out"] = x
        kw["prop_in"] = y
        v = scalar(case["d"], case.get("pform"))
        kw["param"] = np.array([float(case["d"])]) if v is None else v
    return kw


def construct(case, backend, args, kw):
    """Instance of the class of the case; spark backends take a context and
    the number of blocks as well."""
    cls = getattr(module(backend), NAMES[case["model"]])
    if backend in sparkctx.BACKENDS:
        sc = sparkctx.real() if backend == "spark" else sparkctx.local(case.get("order", 0))
        args = (sc,) + tuple(args)
        kw = dict(kw)
        if case.get("blocks") is not None:
            kw["p_blocks"] = case["blocks"]
    return core.sut("%s %s(...)" % (backend, cls.__name__), cls, *args, **kw)


def build(case, backend, **over):
    kw = kwargs(case)
    kw.update(over)
    return construct(case, backend, (), kw)


# ---------------------------------------------------------- reference model
def link_p(z, family):
    """Probability of a link given the product of parameter and fitnesses."""
    with np.errstate(all="ignore"):
        if family in ("fit", "mfit"):
            return np.where(np.isinf(z), 1.0, z / (1.0 + z))
        return -np.expm1(-z)


def log_1mp(z, family):
    with np.errstate(all="ignore"):
        if family in ("fit", "mfit"):
            return -np.log1p(z)
        return -z


def zprod(d, x, y):
    """d * x_i * y_j with the convention that a zero factor gives zero."""
    x = np.asarray(x, dtype=np.float64)
    y = np.asarray(y, dtype=np.float64)
    with np.errstate(all="ignore"):
        z = d * np.outer(x, y)
        # same product, associated differently, where the first overflowed
        z2 = np.outer(d * x, y)
    z = np.where(np.isfinite(z), z, z2)
    z[np.outer(x == 0, np.ones(len(y), bool)) | np.outer(np.ones(len(x), bool), y == 0)] = 0
    if d == 0:
        z[:] = 0
    return z


def probs(case, selfloops=None):
    """(P, T): n x n probability matrix and, for multigraphs, its L layers."""
    sl = case["sl"] if selfloops is None else selfloops
    n = case["n"]
    if case["model"] == "rand":
        P = np.full((n, n), float(case["p"]))
        T = None
    elif is_multi(case):
        x, y = arrays(case)
        lg = np.zeros((n, n))
        T = np.zeros((case["L"], n, n))
        for k in range(case["L"]):
            z = zprod(case["d"][k], x[:, k], y[:, k])
            T[k] = link_p(z, case["model"])
            lg += log_1mp(z, case["model"])
        P = -np.expm1(lg)
        if not sl:
            for k in range(case["L"]):
                np.fill_diagonal(T[k], 0)
    else:
        x, y = arrays(case)
        P = link_p(zprod(case["d"], x, y), case["model"])
        T = None
    P = P.copy()
    if not sl:
        np.fill_diagonal(P, 0)
    return P, T


def logs(case):
    """(log p, log(1-p)) matrices and, for multigraphs, per layer (else None)."""
    n = case["n"]
    with np.errstate(all="ignore"):
        if case["model"] == "rand":
            lp = np.full((n, n), np.log(np.float64(case["p"])))
            lq = np.full((n, n), np.log1p(-np.float64(case["p"])))
            return lp, lq, None, None
        x, y = arrays(case)
        if is_multi(case):
            zs = [zprod(case["d"][k], x[:, k], y[:, k]) for k in range(case["L"])]
        else:
            zs = [zprod(case["d"], x, y)]
        lqs = np.array([log_1mp(z, case["model"]) for z in zs])
        if case["model"] in ("fit", "mfit"):
            lps = np.array(
                [np.where(np.isinf(z), 0.0, np.log(z) - np.log1p(z)) for z in zs]
            )
        else:
            lps = np.array([np.log(-np.expm1(-z)) for z in zs])
        if not is_multi(case):
            return lps[0], lqs[0], None, None
        lq = lqs.sum(axis=0)
        lp = np.log(-np.expm1(lq))
        return lp, lq, lps, lqs


def loglike(case, A, selfloops=None):
    """Log probability of a binary matrix (or tensor of layers); without self
    loops the diagonal takes no part."""
    sl = case["sl"] if selfloops is None else selfloops
    lp, lq, lps, lqs = logs(case)
    A = np.asarray(A)
    if A.ndim == 3:
        lp, lq = lps, lqs
    v = np.where(A != 0, lp, lq)
    if not sl:
        i = np.arange(case["n"])
        v[..., i, i] = 0
    if np.any(np.isneginf(v)):
        return -np.inf
    return float(v.sum())


def possible(A, lp, lq, sl, odd=None):
    """A changed where the ensemble allows only one state of a pair; odd: one pair
    (counted modulo their number) is then put into the state it cannot have."""
    A = np.where(np.isneginf(lp), 0, A)
    A = np.where(np.isneginf(lq), 1, A)
    n = A.shape[-1]
    i = np.arange(n)
    if not sl:
        A[..., i, i] = 0
    if odd is not None:
        bad = np.isneginf(lp) | np.isneginf(lq)
        if not sl:
            bad[..., i, i] = False
        at = np.argwhere(bad)
        if len(at):
            k = tuple(at[odd % len(at)])
            A[k] = 1 - A[k]
    return A


def undirected(P):
    """Probability that a pair is linked in either direction."""
    U = P + P.T - P * P.T
    np.fill_diagonal(U, np.diag(P))
    return U


def degrees(P):
    return undirected(P).sum(axis=1), P.sum(axis=1), P.sum(axis=0)


def expected_nn(P, prop, ndir):
    """Expected neighbour total of prop over the expected degree."""
    if ndir == "out":
        M = P
    elif ndir == "in":
        M = P.T
    else:
        M = undirected(P)
    deg = M.sum(axis=1)
    tot = M.dot(prop)
    res = np.zeros(tot.shape)
    ok = deg != 0
    res[ok] = (tot[ok].T / deg[ok]).T
    return res


def rare(P, ndir, composed):
    """Vertices whose expected degree is a composition of probabilities (1 - q q')
    so rare that the rounding of one shows in a ratio; nothing is asked of these."""
    if ndir != "out-in" and not composed:
        return np.zeros(len(P), dtype=bool)
    M = {"out": P, "in": P.T}[ndir] if ndir != "out-in" else undirected(P)
    deg = M.sum(axis=1)
    return (deg != 0) & (deg < 1e-6 * len(P))


def nn_close(what, got, P, prop, ndir, composed, **tol):
    """Compare neighbour averages of ensembles."""
    want = expected_nn(P, prop, ndir)
    got = np.array(core.dense(what, got), dtype=float)
    skip = rare(P, ndir, composed)
    if got.shape == want.shape and np.all(np.isfinite(got[skip])):
        got[skip] = want[skip]
    core.close(what, got, want, **tol)


def classify(case):
    tags = [case["model"], "selfloops:%s" % case["sl"]]
    if case["model"] == "rand":
        p = case["p"]
        if p in (0, 1):
            tags.append("p=0 or 1")
        return case["n"] >= 2 and 0 < p < 1, tags
    x, y = arrays(case)
    tags.append("fitness:" + case["kind"])
    d = np.array(case["d"], dtype=float)
    if np.any(x == 0) or np.any(y == 0):
        tags.append("zero fitness")
    if np.any(d == 0):
        tags.append("zero parameter")
    if is_multi(case):
        tags.append("labels:%d" % case["L"])
        tags.append("format:" + case["fmt"])
    P, _ = probs(case)
    nz = P[(P > 0) & (P < 1)]
    nt = case["n"] >= 2 and nz.size >= 2 and np.unique(nz).size >= 2
    return bool(nt), tags
