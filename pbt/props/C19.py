"""The monotonic root finder on its own."""
import contextlib
import io
import math

import numpy as np

from .. import core
from ..core import Target
from ..ggen import st

PROP = "C19"
RULE = (
    "random smooth monotonic functions (sums of saturating, exponential-integral-like, "
    "linear, square-root and power terms, increasing or decreasing, random scales), "
    "random non-negative targets inside and outside their range, starting points, "
    "brackets, tolerances and iteration limits; convergence must be reported exactly "
    "when the returned point meets the target within the tolerances, the returned point "
    "stays in the bracket, the recorded iterates are values of the function at points of "
    "the bracket and end in the returned point, both return styles agree, starting "
    "points outside the bracket are refused, and for concave increasing functions and "
    "reachable targets (what the ensembles need), their mirror images and straight lines the "
    "root is found under default options; "
    "non-trivial: at least 2 terms and a target strictly inside the range"
)
KINDS = ("sat", "exp", "lin", "log", "pow")


def term(kind, a, b, x):
    """Increasing on x >= 0, zero at zero; value and derivative."""
    u = b * x
    if kind == "sat":
        return (a, 0.0) if math.isinf(u) else (a * (u / (1 + u)), a * b / (1 + u) / (1 + u))
    if kind == "exp":
        return -a * math.expm1(-u), a * b * math.exp(-u)
    if kind == "lin":
        return a * x, a
    if kind == "tanh":
        return a * math.tanh(u), a * b * (1 - math.tanh(u) ** 2)
    if kind == "asinh":
        return a * math.asinh(u), a * b / math.hypot(1.0, u)
    if kind == "cub":
        return a * u + a * u * u * u, a * b + 3 * a * b * u * u
    if kind == "log":
        return (math.inf, 0.0) if math.isinf(u) else (a * math.log1p(u), a * b / (1 + u))
    return a * x * x * x, 3 * a * x * x


class Fun:
    def __init__(self, case):
        self.terms = case["terms"]
        self.sign = -1.0 if case["dec"] else 1.0
        self.off = case["off"]
        self.shift = case.get("shift", 0.0)
        self.xl = -math.inf if case["xl"] is None else case["xl"]
        self.calls = 0

    def val(self, x):
        f = d = 0.0
        for k, a, b in self.terms:
            u, v = term(k, a, b, x - self.shift)
            f += u
            d += v
        return self.off + self.sign * f, self.sign * d

    def __call__(self, x):
        self.calls += 1
        if self.calls > 5000:
            raise core.Violation("the solver does not stop")
        v = float(np.asarray(x).ravel()[0])
        if v < self.xl or math.isnan(v):
            raise core.Violation("the function is evaluated at %s, outside the bracket" % v)
        return self.val(v)

    def range(self):
        lo, hi = self.val(0.0)[0], self.val(math.inf)[0]
        return min(lo, hi), max(lo, hi)


def bounded(case):
    return all(k in ("sat", "exp") for k, _, _ in case["terms"])


def case_strategy():
    s = st()
    pos = s.one_of(s.sampled_from([1.0, 0.5, 1e-3, 1e3]), s.floats(1e-4, 1e4))

    @s.composite
    def build(draw):
        kinds = draw(s.sampled_from([("sat", "exp"), ("sat", "exp"), ("sat", "exp", "log", "lin"),
                                     KINDS]))
        terms = [[draw(s.sampled_from(list(kinds))), draw(pos), draw(pos)]
                 for _ in range(draw(s.integers(1, 4)))]
        dec = draw(s.integers(0, 3)) == 0
        case = {"terms": terms, "dec": dec, "off": 0.0, "xl": 0.0}
        if dec:
            case["off"] = sum(a for _, a, _ in terms) + draw(s.sampled_from([0.0, 1.0]))
        f = Fun(case)
        mode = draw(s.sampled_from(["inside", "inside", "inside", "root", "outside", "zero"]))
        if mode == "outside" and bounded(case) and not dec:
            t = f.range()[1] * draw(s.sampled_from([1.0, 1.5, 1 + 1e-12]))
        elif mode == "zero":
            t = 0.0
        else:
            t = f.val(draw(s.one_of(s.floats(1e-4, 1e4), s.sampled_from([1.0, 0.1]))))[0]
        case.update(
            target=max(0.0, t),
            x0=draw(s.one_of(s.just(0.0), s.floats(0, 10), s.sampled_from([1.0, 1e-6, 1e6]))),
            form=draw(s.sampled_from(["array", "array", "float", "int-array"])),
            xu=draw(s.sampled_from([None, None, None, 1e8, 50.0])),
            xl=draw(s.sampled_from([0.0, 0.0, 0.0, 1e-3])),
            atol=draw(s.sampled_from([1e-24, 1e-24, 0.0, 1e-6])),
            rtol=draw(s.sampled_from([1e-9, 1e-9, 1e-12, 1e-3, 0.0])),
            maxiter=draw(s.sampled_from([100, 100, 100, 1, 3, 0])),
        )
        if case["xu"] is None and any(k == "pow" for k, _, _ in terms):
            case["xu"] = 1e8  # flat at zero: the solver tries the ends of the bracket
        # a finite bracket has to contain the root
        ends = [f.val(case["xl"])[0], f.val(case["xu"] or math.inf)[0]]
        if not min(ends) <= case["target"] <= max(ends):
            case["xl"] = 0.0
            if case["xu"] is not None:
                case["target"] = f.val(case["xu"] / 4)[0]
                if case["target"] < 0:
                    case["target"] = 0.0
                    case["xu"] = None
                    case["terms"] = [["sat", a, b] for _, a, b in terms]
        if case["form"] == "int-array":
            case["x0"] = float(round(case["x0"]))
        return case

    return build()


def reachable(case, f, t, xu):
    lo, hi = f.val(0.0)[0], f.val(min(xu, 1e5))[0]
    if case["dec"] and (case["rtol"] * t < 1e-12 * f.off or case["x0"] > 10
                        or f.val(case["x0"])[1] == 0):
        return False  # below the rounding of the function, or started where it is flat
    return abs(t - lo) <= 0.99 * abs(hi - lo) and (t - lo) * (hi - lo) >= 0


def start(case):
    if case["form"] == "float":
        return case["x0"]
    if case["form"] == "int-array":
        return np.array([int(case["x0"])])
    return np.array([case["x0"]])


def check(case):
    from graph_ensembles.solver import monotonic_newton_solver as solve

    f = Fun(case)
    xu = math.inf if case["xu"] is None else case["xu"]
    xl = -math.inf if case["xl"] is None else case["xl"]
    kw = dict(atol=case["atol"], rtol=case["rtol"], max_iter=case["maxiter"], x_l=xl, x_u=xu)
    t = case["target"]
    if case.get("default"):
        # limits left out: the whole line
        kw = {k: v for k, v in kw.items() if not (k[:2] == "x_" and math.isinf(v))}
    if case.get("ends"):
        # values at the ends of the bracket, as far as known
        if not math.isinf(xl):
            kw["f_l"] = f.val(xl)[0] - t
        if not math.isinf(xu):
            kw["f_u"] = f.val(xu)[0] - t
    if not xl <= case["x0"] <= xu:
        f.xl = -math.inf  # the refusal has to come from the solver
        core.rejects("a starting point outside the bracket", solve, start(case), f, t, **kw)
        return
    x0 = start(case)
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        try:
            sol = solve(x0, f, t, full_return=True, **kw)
            x = solve(start(case), Fun(case), t, full_return=False, **kw)
            loud = solve(start(case), Fun(case), t, full_return=True, verbose=2, **kw)
        except core.Violation:
            raise
        except Exception as exc:
            raise core.Violation("solver raised %s: %s" % (type(exc).__name__, exc)) from None
    core.equal("the starting point handed over", x0, start(case))
    xs = float(np.asarray(sol.x).ravel()[0])
    core.require(xl <= xs <= xu, "solution %s outside [%s, %s]" % (xs, xl, xu))
    for what, y in (("full_return=False", x), ("verbose", loud.x)):
        core.equal("solution with " + what, np.asarray(y).ravel(), np.asarray(sol.x).ravel())
    tol = case["atol"] + case["rtol"] * t
    res = abs(f.val(xs)[0] - t)
    near = 1e-13 * (abs(t) + abs(f.off)) + 1e-300
    if sol.converged:
        core.require(res <= tol + near, "converged although |f(%s) - %s| = %s > %s"
                     % (xs, t, res, tol))
    else:
        core.require(not res < tol - near, "not converged although |f(%s) - %s| = %s <= %s"
                     % (xs, t, res, tol))
    core.require(0 <= sol.n_iter <= max(case["maxiter"], 0), "%s iterations of at most %s"
                 % (sol.n_iter, case["maxiter"]))
    core.require(bool(sol.max_iter_reached) == (sol.n_iter >= case["maxiter"]),
                 "max_iter_reached is %s after %s of %s" % (sol.max_iter_reached, sol.n_iter,
                                                            case["maxiter"]))
    seq = np.asarray(sol.x_seq, dtype=float).ravel()
    core.require(len(seq) == sol.n_iter + 1, "%d recorded points after %d iterations"
                 % (len(seq), sol.n_iter))
    core.require(seq[0] == case["x0"] and seq[-1] == xs, "recorded points %s" % seq[:5])
    core.require(np.all((seq >= xl) & (seq <= xu)), "points outside the bracket %s" % seq)
    want = np.array([f.val(float(v))[0] - t for v in seq])
    big = 1e-12 * (abs(t) + abs(f.off))
    if "shift" in case:
        # subtracting the shift loses digits
        big += 1e-12 * max(abs(f.val(float(v))[1]) for v in seq) * (abs(f.shift) + 1)
    core.close("recorded residuals", np.asarray(sol.f_seq, dtype=float).ravel(), want, rtol=1e-12,
               atol=big)
    core.close("recorded norms", np.asarray(sol.norm_seq, dtype=float).ravel(), np.abs(want),
               rtol=1e-12, atol=big)
    # what the ensembles rely on: increasing and concave, root inside the bracket
    if "shift" not in case and (all(k != "pow" for k, _, _ in case["terms"])
            and case["maxiter"] == 100 and case["rtol"] in (1e-9, 1e-3)
            and case["xl"] == 0 and reachable(case, f, t, xu)):
        core.require(bool(sol.converged), "root of %s at target %s from %s not found: stopped at "
                     "%s with residual %s after %s iterations" % (
                         case["terms"], t, case["x0"], xs, res, sol.n_iter))
    # a straight line is its own tangent
    if "shift" in case and all(k == "lin" for k, _, _ in case["terms"]) \
            and case["atol"] >= 1e-9 and case["maxiter"] >= 30:
        core.require(bool(sol.converged), "root of the line %s at target %s from %s not found: "
                     "stopped at %s with residual %s" % (case["terms"], t, case["x0"], xs, res))


def line_case():
    """Functions monotonic on the whole line, brackets open on either side."""
    s = st()
    pos = s.one_of(s.sampled_from([1.0, 0.5, 1e-2, 1e2]), s.floats(1e-2, 1e2))

    @s.composite
    def build(draw):
        kinds = draw(s.sampled_from([("tanh",), ("asinh", "lin"), ("lin",), ("cub", "lin"),
                                     ("tanh", "asinh", "lin", "cub")]))
        terms = [[draw(s.sampled_from(list(kinds))), draw(pos), draw(pos)]
                 for _ in range(draw(s.integers(1, 3)))]
        case = {"terms": terms, "dec": draw(s.booleans()), "xl": None, "xu": None,
                "shift": float(draw(s.integers(-20, 20))) / 4, "off": 0.0}
        root = draw(s.one_of(s.integers(-20, 20).map(lambda v: v / 2), s.floats(-10, 10)))
        target = draw(s.sampled_from([0.0, 1.0, 10.0, 0.5]))
        case["off"] = target - Fun(case).val(root)[0]
        case["target"] = target
        if draw(s.booleans()):
            case["xl"] = root - draw(s.sampled_from([0.0, 0.5, 3.0, 100.0]))
        if draw(s.booleans()):
            case["xu"] = root + draw(s.sampled_from([0.0, 0.5, 3.0, 100.0]))
        x0 = root + draw(s.sampled_from([0.0, 1.0, -1.0, 1e-6, 5.0, -5.0, 50.0, -50.0]))
        case.update(
            x0=x0, form=draw(s.sampled_from(["array", "float"])),
            default=draw(s.booleans()), ends=draw(s.booleans()),
            atol=draw(s.sampled_from([1e-24, 1e-6, 1e-9])),
            rtol=draw(s.sampled_from([1e-9, 1e-6, 0.0])),
            maxiter=draw(s.sampled_from([100, 100, 30, 2])))
        return case

    return build()


def classify(case):
    f = Fun(case)
    if "shift" in case:
        tags = ["whole line", "decreasing" if case["dec"] else "increasing"]
        tags += ["no lower limit"] if case["xl"] is None else []
        tags += ["no upper limit"] if case["xu"] is None else []
        return len(case["terms"]) >= 2, tags
    lo, hi = f.range()
    tags = ["decreasing" if case["dec"] else "increasing", "start:" + case["form"]]
    inside = lo < case["target"] < hi
    if not inside:
        tags.append("target not inside the range")
    if case["xu"] is not None:
        tags.append("finite bracket")
    if not bounded(case):
        tags.append("unbounded function")
    return inside and len(case["terms"]) >= 2, tags


TARGETS = [
    Target("root", case_strategy, check, classify, 12000, 60000, group="a", shards=3, tshards=4),
    Target("line", line_case, check, classify, 8000, 60000, group="b", shards=3, tshards=4),
]
