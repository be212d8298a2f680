"""Spark contexts for the checks: a real local one, and a stand-in which runs the
same operations in this process, with control over the partitions and the order in
which partial results are combined."""
import functools
import itertools
import os

from . import core

BACKENDS = ("spark", "local")


class StandInMissing(core.Inconclusive):
    """The code asks the stand-in for something it does not offer."""


class Missing:
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StandInMissing(name)


class LocalRDD(Missing):
    """Partitions held as lists; each action runs in this process."""

    def __init__(self, parts, order=0):
        self._p = parts
        self._o = order

    def _new(self, f):
        # evaluated on every action, as in Spark
        src = self._p
        return LocalRDD(lambda: [f(i, p) for i, p in enumerate(_run(src))], self._o)

    def _parts(self):
        return _run(self._p)

    def _arrive(self, vals):
        """Partial results in the order in which they happen to arrive."""
        vals = list(vals)
        if self._o == 1:
            return vals[::-1]
        if self._o > 1 and vals:
            k = self._o % len(vals)
            return vals[k:] + vals[:k]
        return vals

    # transformations
    def map(self, f, preservesPartitioning=False):
        return self._new(lambda i, p: [f(x) for x in p])

    def flatMap(self, f, preservesPartitioning=False):
        return self._new(lambda i, p: [y for x in p for y in f(x)])

    def filter(self, f):
        return self._new(lambda i, p: [x for x in p if f(x)])

    def mapPartitions(self, f, preservesPartitioning=False):
        return self._new(lambda i, p: list(f(iter(p))))

    def mapPartitionsWithIndex(self, f, preservesPartitioning=False):
        return self._new(lambda i, p: list(f(i, iter(p))))

    def mapValues(self, f):
        return self.map(lambda kv: (kv[0], f(kv[1])))

    def keyBy(self, f):
        return self.map(lambda x: (f(x), x))

    def keys(self):
        return self.map(lambda kv: kv[0])

    def values(self):
        return self.map(lambda kv: kv[1])

    def glom(self):
        return self._new(lambda i, p: [list(p)])

    def cache(self):
        return self

    def persist(self, *a):
        return self

    def unpersist(self, *a):
        return self

    def coalesce(self, *a, **k):
        return self

    def repartition(self, *a):
        return self

    def union(self, other):
        return LocalRDD(lambda: self._parts() + other._parts(), self._o)

    def zipWithIndex(self):
        def run():
            c = itertools.count()
            return [[(x, next(c)) for x in p] for p in self._parts()]
        return LocalRDD(run, self._o)

    def getNumPartitions(self):
        return len(self._parts())

    def setName(self, name):
        return self

    def reduceByKey(self, f, numPartitions=None):
        d = {}
        for k, v in self.toLocalIterator():
            d[k] = f(d[k], v) if k in d else v
        return LocalRDD([[kv] for kv in d.items()], self._o)

    def groupByKey(self, numPartitions=None):
        d = {}
        for k, v in self.toLocalIterator():
            d.setdefault(k, []).append(v)
        return LocalRDD([[kv] for kv in d.items()], self._o)

    def sortByKey(self, *a, **k):
        return LocalRDD([[x] for x in sorted(self.collect(), key=lambda kv: kv[0])], self._o)

    # actions
    def collect(self):
        return [x for p in self._parts() for x in p]

    def toLocalIterator(self, prefetchPartitions=False):
        return iter(self.collect())

    def collectAsMap(self):
        return dict(self.collect())

    def foreach(self, f):
        for x in self.collect():
            f(x)

    def count(self):
        return len(self.collect())

    def take(self, n):
        return self.collect()[:n]

    def first(self):
        return self.collect()[0]

    def isEmpty(self):
        return not self.collect()

    def fold(self, zero, op):
        import copy

        parts = []
        for p in self._parts():
            acc = copy.deepcopy(zero)
            for x in p:
                acc = op(acc, x)
            parts.append(acc)
        acc = copy.deepcopy(zero)
        for x in self._arrive(parts):
            acc = op(acc, x)
        return acc

    def aggregate(self, zero, seq, comb):
        import copy

        parts = []
        for p in self._parts():
            acc = copy.deepcopy(zero)
            for x in p:
                acc = seq(acc, x)
            parts.append(acc)
        return functools.reduce(comb, self._arrive(parts), copy.deepcopy(zero))

    def treeAggregate(self, zero, seq, comb, depth=2):
        return self.aggregate(zero, seq, comb)

    def reduce(self, f):
        parts = [functools.reduce(f, p) for p in self._parts() if len(p)]
        return functools.reduce(f, self._arrive(parts))

    def treeReduce(self, f, depth=2):
        return self.reduce(f)

    def sum(self):
        return self.mapPartitions(lambda x: [sum(x)]).fold(0, lambda a, b: a + b)

    def max(self, key=None):
        return max(self.collect(), key=key) if key else max(self.collect())

    def min(self, key=None):
        return min(self.collect(), key=key) if key else min(self.collect())


def _run(parts):
    return parts() if callable(parts) else [list(p) for p in parts]


class _Broadcast:
    def __init__(self, value):
        self.value = value

    def unpersist(self, *a):
        pass

    def destroy(self, *a):
        pass


_classes = {}


def local(order=0):
    """A stand-in context (an instance of a subclass of SparkContext)."""
    if "cls" not in _classes:
        from pyspark import SparkContext

        class Local(SparkContext):
            def __init__(self, order):
                self._order = order

            @property
            def defaultParallelism(self):
                return 2

            def parallelize(self, c, numSlices=None):
                c = list(c)
                k = numSlices or 2
                b = [len(c) * i // k for i in range(k + 1)]
                return LocalRDD([c[b[i]:b[i + 1]] for i in range(k)], self._order)

            def broadcast(self, value):
                return _Broadcast(value)

            def union(self, rdds):
                return functools.reduce(lambda a, b: a.union(b), rdds)

            def __getattribute__(self, name):
                v = object.__getattribute__(self, name)
                if name.startswith("_") or name in ("parallelize", "broadcast", "union",
                                                    "defaultParallelism"):
                    return v
                raise StandInMissing(name)

            def __del__(self):
                pass

        _classes["cls"] = Local
    return _classes["cls"](order)


_real = []


def real():
    if not _real:
        src = os.environ.get("GE_SRC", "/repo/src")
        os.environ["PYTHONPATH"] = src + os.pathsep + os.environ.get("PYTHONPATH", "")
        os.environ["PYSPARK_PYTHON"] = os.environ["PYSPARK_DRIVER_PYTHON"] = \
            "/opt/venv/bin/python"
        os.environ["SPARK_LOCAL_IP"] = "127.0.0.1"
        os.environ["SPARK_LOCAL_HOSTNAME"] = "localhost"
        os.environ.pop("SPARK_HOME", None)
        if os.environ.get("GE_PYC"):
            os.environ["PYTHONPYCACHEPREFIX"] = os.environ["GE_PYC"]
        from pyspark import SparkConf, SparkContext

        tmp = os.environ.get("GE_TMP", "/tmp")
        conf = (SparkConf().setMaster("local[2]").setAppName("verif")
                .set("spark.ui.enabled", "false").set("spark.local.dir", tmp)
                .set("spark.driver.host", "127.0.0.1")
                .set("spark.driver.bindAddress", "127.0.0.1")
                .set("spark.ui.showConsoleProgress", "false")
                .set("spark.driver.memory", "1g"))
        sc = SparkContext(conf=conf)
        sc.setLogLevel("OFF")
        _real.append(sc)
    return _real[0]


def finish():
    if _real:
        _real.pop().stop()
