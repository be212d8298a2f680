"""Shared machinery: violations, calls into the code under test, comparisons."""
import contextlib
import hashlib
import io
import json
import os
import sys
import traceback
import warnings

import numpy as np

SRC = os.environ.get("GE_SRC", "/repo/src")
HYP_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is at fault (never reported as a violation)."""


class Inconclusive(Exception):
    """The case could not be decided (a stand-in does not offer what is asked)."""

    raised = None

    def __init__(self, what):
        Exception.__init__(self, what)
        Inconclusive.raised = what


class Target:
    """One generated-input search.

    strategy : zero-argument function returning a Hypothesis strategy that
               yields JSON-serialisable cases
    check    : function(case), raises Violation when the property fails
    classify : function(case) -> (non_trivial, [tags])
    group    : targets with the same group share a process (and JIT work)
    """

    def __init__(
        self,
        name,
        strategy,
        check,
        classify,
        quick,
        thorough,
        group=None,
        shards=1,
        tshards=None,
        examples=(),
        env=None,
        shrink_s=60,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.classify = classify
        self.quick = quick
        self.thorough = thorough
        self.group = group or name
        self.shards = shards
        self.tshards = tshards if tshards is not None else shards
        self.examples = list(examples)
        self.env = env or {}
        self.shrink_s = shrink_s


def targets(mod):
    """Targets of a property; SPARK names the kinds of question which are put to the
    ensembles of the spark backend as well (on the in-process stand-in)."""
    ts = list(mod.TARGETS)
    kinds = getattr(mod, "SPARK", ())
    if kinds:
        import copy

        from .props import C17

        for t in C17.TARGETS:
            kind, backend, mo = t.name.split("-")
            if kind in kinds and backend == "local":
                t = copy.copy(t)
                t.quick, t.thorough = max(t.quick // 3, 20), t.thorough // 2
                t.group = "local-" + ("fit" if mo == "rand" else mo)
                ts.append(t)
    return ts


def in_sut(exc):
    """True if the exception passed through code of the repository."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(
            os.path.realpath(SRC) + os.sep
        ):
            return True
        tb = tb.tb_next
    return False


def sut(what, fn, *args, **kwargs):
    """Call the code under test on input for which it must not fail."""
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)
    except Exception as exc:  # noqa
        raise Violation(
            "%s raised %s: %s" % (what, type(exc).__name__, str(exc)[:300])
        ) from None


def rejects(what, fn, *args, **kwargs):
    """Call the code under test on input which it must refuse."""
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            fn(*args, **kwargs)
    except Exception:
        return
    raise Violation("%s was accepted" % what)


def dense(what, x):
    """A result of the code under test (array, sparse array, number) as ndarray."""
    try:
        if hasattr(x, "toarray"):
            x = x.toarray()
        if isinstance(x, list) and len(x) and hasattr(x[0], "toarray"):
            x = np.array([y.toarray() for y in x])
        a = np.asarray(x)
        if a.dtype == object:
            raise TypeError("object array")
        return a
    except Violation:
        raise
    except Exception as exc:
        raise Violation(
            "%s returned something that is not a numeric array: %r (%s)"
            % (what, type(x).__name__, exc)
        ) from None


def _short(a):
    s = np.array2string(np.asarray(a), threshold=60, max_line_width=200)
    return s if len(s) < 900 else s[:900] + "..."


def equal(what, got, want):
    """Exact equality of arrays (values and shape, not dtype)."""
    got = dense(what, got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation(
            "%s has shape %s, expected %s" % (what, got.shape, want.shape)
        )
    if got.dtype == bool or want.dtype == bool:
        same = np.array_equal(got.astype(float), want.astype(float))
    else:
        same = np.array_equal(got, want)
    if not same:
        raise Violation(
            "%s: got %s, expected %s" % (what, _short(got), _short(want))
        )


def close(what, got, want, rtol=1e-9, atol=1e-12):
    """Equality up to rounding; infinities must match exactly, NaN never does."""
    if isinstance(got, list) and not got and np.shape(want)[:1] == (0,):
        return  # a list of no layers
    got = dense(what, got)
    want = np.asarray(want, dtype=np.float64)
    if got.shape != want.shape:
        raise Violation(
            "%s has shape %s, expected %s" % (what, got.shape, want.shape)
        )
    try:
        got = got.astype(np.float64)
    except Exception:
        raise Violation("%s is not numeric: %s" % (what, _short(got)))
    if np.any(np.isnan(got)):
        raise Violation("%s contains NaN: %s, expected %s" % (what, _short(got), _short(want)))
    inf = np.isinf(want)
    with np.errstate(all="ignore"):
        ok = np.where(
            inf, got == want, np.abs(got - want) <= atol + rtol * np.abs(want)
        )
    if not np.all(ok):
        raise Violation(
            "%s: got %s, expected %s" % (what, _short(got), _short(want))
        )


def require(cond, msg):
    if not cond:
        raise Violation(msg)


class Kept:
    """What was handed out or given by the caller must stay as it was."""

    def __init__(self):
        self.items = []

    def array(self, what, x):
        if hasattr(x, "toarray"):
            self.items.append((what, x.toarray, x.toarray()))
        elif isinstance(x, np.ndarray):
            self.items.append((what, lambda: x, x.copy()))
        return x

    def graph(self, what, g):
        def links():
            return dense(what, sut(what, g.adjacency_matrix, directed=True,
                                             weighted=True))

        self.items.append((what, links, links().copy()))
        return g

    def check(self, hist):
        for what, now, before in self.items:
            got = now()
            require(np.array_equal(got, before), "%s changed during the history %s: %s "
                         "instead of %s" % (what, hist, got, before))



def key(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(key(case).encode()).hexdigest()[:16]


def derive_seed(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_check(target, case):
    """Run one case. Raises Violation, Inconclusive or HarnessError only."""
    Inconclusive.raised = None
    try:
        target.check(case)
    except Violation:
        if Inconclusive.raised:
            raise Inconclusive(Inconclusive.raised) from None
        raise
    except Exception as exc:
        if Inconclusive.raised:
            raise Inconclusive(Inconclusive.raised) from None
        if in_sut(exc):
            raise Violation(
                "unexpected %s in the code under test: %s"
                % (type(exc).__name__, str(exc)[:300])
            ) from None
        raise HarnessError(
            "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]
        ) from None


# numba keeps its own generator: seed both
_seed_jit = None


def seed_all(s):
    """Make random numbers drawn by the code under test reproducible."""
    global _seed_jit
    import random

    s = int(s) % (2**32)
    random.seed(s)
    np.random.seed(s)
    if _seed_jit is None:
        from numba import jit

        @jit(nopython=True)
        def f(x):
            np.random.seed(x)

        _seed_jit = f
    _seed_jit(s)


def setup_path():
    """Import the code from the working tree, never from stale byte code."""
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    if os.environ.get("GE_PYC"):
        import networkx  # noqa
        import numba.experimental  # noqa
        import numba.typed  # noqa
        import pandas  # noqa
        import scipy.sparse  # noqa

        sys.pycache_prefix = os.environ["GE_PYC"]
