"""Generated graphs: strategies, construction through the public classes, and
the reference model (plain arrays built edge by edge)."""
import sys

import numpy as np

from . import core

CLASSES = ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph")


def st():
    if core.HYP_PATH not in sys.path:
        sys.path.append(core.HYP_PATH)
    from hypothesis import strategies

    return strategies


# --------------------------------------------------------------- strategies
def values(draw, kind, n):
    """n distinct identifiers of the given kind."""
    s = st()
    if kind == "int":
        el = s.integers(-5, 400) if n > 12 else s.one_of(
            s.integers(0, 12), s.integers(-(2**40), 2**40),
            s.integers(2**53 - 2, 2**53 + 3),
        )
    elif kind == "str":
        el = s.text(alphabet="abAB01_ é.", min_size=1, max_size=4)
        el = s.one_of(el, el, el.map(lambda x: "long common start " + x))
    elif kind == "float":
        el = s.one_of(
            s.integers(-40, 400).map(lambda x: x / 4),
            s.integers(-40, 400).map(lambda x: x / 4),
            s.sampled_from([1 + 2.0**-52, 1 - 2.0**-53, 1e300, 1e-300, -1e-300]),
        )
    else:  # pair
        el = s.tuples(
            s.sampled_from(["a", "b", "B", "c", "dd"]), s.integers(0, 60)
        ).map(list)
    if n > 60:
        base = list(range(n))
        if kind == "int":
            off = draw(s.integers(-50, 50))
            return [x * 3 + off for x in base]
        if kind == "str":
            return ["n%04d" % x for x in base]
        if kind == "float":
            return [x / 2 for x in base]
        return [["ab"[x % 2], x] for x in base]
    key = (lambda x: tuple(x)) if kind == "pair" else None
    return draw(s.lists(el, min_size=n, max_size=n, unique_by=key or (lambda x: x)))


def graph_case(
    classes=CLASSES,
    nmax=8,
    big=True,
    min_edges=0,
    groups="maybe",
    weights="any",
    dup=True,
    single=False,
    hub=False,
):
    """single: weights of single precision occur as well. hub: always a large
    graph with a vertex linked to almost all others."""
    s = st()

    @s.composite
    def build(draw):
        cls = draw(s.sampled_from(list(classes)))
        r = draw(s.integers(0, 39))
        if hub:
            n = draw(s.sampled_from([257, 258, 300]))
        elif big and r == 0:
            n = draw(s.sampled_from([40, 64, 127, 128]))
        elif big and r == 1:
            n = draw(s.sampled_from([254, 255, 256, 257, 300]))
        else:
            n = draw(s.integers(1, nmax))
        kind = draw(s.sampled_from(["int", "str", "pair", "float"]))
        ids = values(draw, kind, n)
        perm = draw(s.permutations(range(n))) if n <= 60 else list(range(n))
        ids = [ids[i] for i in perm]
        gr = None
        if groups == "always" or (groups == "maybe" and draw(s.booleans())):
            ng = draw(s.integers(1, min(n, 4))) if n <= 60 else draw(
                s.sampled_from([1, 2] if hub else [1, 3, n])
            )
            gk = draw(s.sampled_from(["int", "str", "pair"]))
            gv = values(draw, gk, ng)
            if ng == n:
                ga = list(range(n))
            else:
                ga = [draw(s.integers(0, ng - 1)) for _ in range(min(n, 60))]
                ga = [ga[i % len(ga)] for i in range(n)]
            gr = {"kind": gk, "vals": [gv[i] for i in ga]}
        lab = None
        nl = 1
        if cls.startswith("Multi"):
            nl = draw(s.integers(1, 4))
            if big and draw(s.integers(0, 59)) == 0:
                nl = draw(s.sampled_from([255, 256, 257]))
            lk = draw(s.sampled_from(["int", "str", "pair"]))
            lab = {"kind": lk, "vals": values(draw, lk, nl)}
        wk = {
            "any": ["none", "int", "float"],
            "weighted": ["int", "float"],
            "unweighted": ["none"],
        }[weights]
        wk = draw(s.sampled_from(wk))
        node = s.integers(0, n - 1)
        wdt = {"int": "int64", "float": "float64"}.get(wk)
        if wk == "int":
            w = s.one_of(s.integers(1, 9), s.integers(1, 10**6))
            wdt = draw(s.sampled_from(["int64"] * 5 + ["int32", "uint8", "uint16", "uint32",
                                                       "uint64"]))
            if wdt == "int32":
                w = s.one_of(w, s.integers(2**30, 2**31 - 1))
            elif wdt in ("uint32", "uint64"):
                w = s.one_of(w, s.integers(2**31, 2**32 - 1))
            elif wdt == "int64":
                w = s.one_of(w, w, w, s.integers(2**31, 2**38))
            elif wdt == "uint8":
                w = s.integers(1, 255)
            elif wdt == "uint16":
                w = s.one_of(s.integers(1, 255), s.integers(1, 65535))
        elif wk == "float" and single and draw(s.integers(0, 4)) == 0:
            # sums of these are exact
            wdt = "float32"
            w = s.integers(1, 64).map(lambda x: x / 8)
        elif wk == "float":
            w = s.one_of(
                s.integers(1, 64).map(lambda x: x / 8),
                s.floats(1e-3, 1e6, allow_nan=False, allow_infinity=False),
                s.sampled_from([0.5, 1e-9, 1e-12, 1e-30, 1e12]),
            )
        else:
            w = s.just(1)
        # cluster endpoints so that repeated and reciprocal links are common
        if draw(s.booleans()):
            k = min(n, 3)
            node = s.one_of(s.integers(0, k - 1), node)
        edge = s.tuples(node, node, s.integers(0, nl - 1), w).map(list)
        m = 3 * min(n, 10)
        edges = draw(
            s.lists(
                edge,
                min_size=min_edges,
                max_size=m,
                unique_by=None if dup else (lambda e: (e[0], e[1], e[2])),
            )
        )
        if lab is not None and edges:
            # only labels which occur on an edge exist for the graph
            if nl > 60:
                for k in range(nl):
                    edges.append([k % n, (k // n) % n, k, edges[0][3]])
        if n > 60 and (hub or draw(s.booleans())):
            # a vertex linked to (almost) all others
            h, fan = draw(node), draw(s.sampled_from(["out", "in", "both"]))
            k, x = draw(s.integers(0, nl - 1)), draw(w)
            stop = draw(s.integers(n - 2, n))
            for i in range(stop):
                if fan != "in":
                    edges.append([h, i, k, x])
                if fan != "out":
                    edges.append([i, h, k, x])
        if big and r == 2 and edges and dup:
            # the same link listed very often
            e0 = list(draw(s.sampled_from(edges)))
            edges += [list(e0) for _ in range(draw(s.sampled_from([254, 255, 256, 511])))]
        idt = None
        if kind == "int":
            idt = draw(s.sampled_from([None, None, "i4", "i2", "f8", "str"]))
            if idt == "f8" and max(abs(x) for x in ids) > 2**53 - 1:
                idt = None
            if idt == "i2" and max(abs(x) for x in ids) > 30000:
                idt = None
            if idt == "i4" and max(abs(x) for x in ids) > 2**31 - 2:
                idt = None
        return {
            "cls": cls,
            "idt": idt,
            "kind": kind,
            "ids": ids,
            "groups": gr,
            "labels": lab,
            "wkind": wk,
            "wdt": wdt,
            "edges": edges,
            "index": draw(s.sampled_from([0, 0, 0, 1, 2])),
            "listed": draw(s.sampled_from([0, 0, 0, 31, 1, 2, 4, 8])),
        }

    return build()


# ------------------------------------------------------------- construction
def _col(kind, vals):
    if kind == "pair":
        return [tuple(x) for x in vals]
    return list(vals)


def frames(case, order=None):
    """The data frames a user would pass, and the keyword arguments."""
    import pandas as pd

    ids = case["ids"]
    n = len(ids)
    vd = {}
    kw = {}
    if case["kind"] == "pair":
        vd["name"] = [x[0] for x in ids]
        vd["num"] = [x[1] for x in ids]
        kw["v_id"] = ["name", "num"]
    else:
        vd["name"] = list(ids)
        kw["v_id"] = "name"
    vd["extra"] = [float(i) for i in range(n)]
    gr = case["groups"]
    if gr is not None:
        if gr["kind"] == "pair":
            vd["ga"] = [x[0] for x in gr["vals"]]
            vd["gb"] = [x[1] for x in gr["vals"]]
            kw["v_group"] = ["ga", "gb"]
        else:
            vd["ga"] = list(gr["vals"])
            kw["v_group"] = "ga"
    v = pd.DataFrame(vd)
    ed = {}
    edges = case["edges"]
    if order is not None:
        edges = [edges[i] for i in order]
    for side, pos in (("s", 0), ("d", 1)):
        if case["kind"] == "pair":
            ed[side + "name"] = [ids[e[pos]][0] for e in edges]
            ed[side + "num"] = [ids[e[pos]][1] for e in edges]
        else:
            ed[side + "name"] = [ids[e[pos]] for e in edges]
    if case["kind"] == "pair":
        kw["src"] = ["sname", "snum"]
        kw["dst"] = ["dname", "dnum"]
    else:
        kw["src"] = "sname"
        kw["dst"] = "dname"
    lab = case["labels"]
    if lab is not None:
        lv = lab["vals"]
        if lab["kind"] == "pair":
            ed["la"] = [lv[e[2]][0] for e in edges]
            ed["lb"] = [lv[e[2]][1] for e in edges]
            kw["edge_label"] = ["la", "lb"]
        else:
            ed["la"] = [lv[e[2]] for e in edges]
            kw["edge_label"] = "la"
    if case["wkind"] != "none":
        ed["w"] = np.array(
            [e[3] for e in edges],
            dtype=case.get("wdt") or ("int64" if case["wkind"] == "int" else "float64"),
        )
        kw["weight"] = "w"
    e = pd.DataFrame(ed)
    idt = case.get("idt")
    if idt in ("i2", "i4"):
        v["name"] = v["name"].astype(idt)
    elif idt == "f8":  # as after a join
        e["sname"] = e["sname"].astype(float)
        e["dname"] = e["dname"].astype(float)
    elif idt == "str":
        for t, c in ((v, "name"), (e, "sname"), (e, "dname")):
            t[c] = t[c].map(str).astype(object)
    # one column may be named by a list as well
    for bit, names in ((1, ("v_id",)), (2, ("src", "dst")), (4, ("v_group",)),
                       (8, ("edge_label",)), (16, ("weight",))):
        for k in names:
            if case.get("listed", 0) & bit and isinstance(kw.get(k), str):
                kw[k] = [kw[k]]
    if case.get("index") == 1:  # any row labels
        v.index = [7 * i % 11 - 3 for i in range(len(v))]
        e.index = [5 - i for i in range(len(e))]
    elif case.get("index") == 2:  # repeated row labels
        v.index = ["r"] * len(v)
        e.index = [i // 2 for i in range(len(e))]
    return v, e, kw


def module(backend):
    if backend == "dense":
        import graph_ensembles.graphs as m
    else:
        import graph_ensembles.sparse.graphs as m
    return m


def build(case, backend, order=None):
    v, e, kw = frames(case, order)
    cls = getattr(module(backend), case["cls"])
    return core.sut("%s %s(...)" % (backend, case["cls"]), cls, v, e, **kw)


# ---------------------------------------------------------- reference model
class Ref:
    """What the graph must be, computed one edge at a time.

    Positions are those the object itself assigned (id_dict, group_dict,
    label_dict); that these are one-to-one with the given identifiers is part
    of the check.
    """

    def __init__(self, case, g):
        ids = _col(case["kind"], case["ids"])
        if case.get("idt") == "str":
            ids = [str(x) for x in ids]
        n = len(ids)
        self.n = n
        self.weighted = case["wkind"] != "none"
        self.multi = case["labels"] is not None
        self.directed = case["cls"] in ("DiGraph", "MultiDiGraph")
        core.require(
            int(g.num_vertices) == n,
            "num_vertices is %s for %d vertices" % (g.num_vertices, n),
        )
        self.pos = positions("vertex", g.id_dict, ids)
        self.ids = ids
        self.groups = None
        if case["groups"] is not None:
            gv = _col(case["groups"]["kind"], case["groups"]["vals"])
            self.gpos = positions("group", g.group_dict, sorted(set(gv)))
            self.ng = len(self.gpos)
            core.require(
                int(g.num_groups) == self.ng,
                "num_groups is %s for %d groups" % (g.num_groups, self.ng),
            )
            want = np.zeros(n, dtype=int)
            for x, y in zip(ids, gv):
                want[self.pos[x]] = self.gpos[y]
            core.equal("group of each vertex", g.groups, want)
            self.groups = want
            self.gval = {self.pos[x]: y for x, y in zip(ids, gv)}
        self.nl = 1
        self.lval = {}
        lpos = None
        if self.multi:
            lv = _col(case["labels"]["kind"], case["labels"]["vals"])
            used = sorted(set(lv[e[2]] for e in case["edges"]))
            self.lpos = positions("label", g.label_dict, used)
            self.nl = len(used)
            self.lval = {p: x for x, p in self.lpos.items()}
            core.require(
                int(g.num_labels) == self.nl,
                "num_labels is %s for %d labels" % (g.num_labels, self.nl),
            )
            lpos = self.lpos
        T = np.zeros((self.nl, n, n))
        for s, d, k, w in case["edges"]:
            a = lpos[lv[k]] if self.multi else 0
            i, j = self.pos[ids[s]], self.pos[ids[d]]
            if self.weighted:
                T[a, i, j] += w
            else:
                T[a, i, j] = 1
        self.T = T
        self.TA = (T != 0).astype(float)
        self.A = (T.sum(axis=0) != 0).astype(float)
        self.W = T.sum(axis=0) if self.weighted else self.A

    @classmethod
    def of(cls, T, directed=True, multi=False, weighted=True, groups=None):
        """Reference graph with the given layers (label, source, target)."""
        r = cls.__new__(cls)
        r.T = np.asarray(T, dtype=np.float64)
        r.nl, r.n = r.T.shape[:2]
        r.directed, r.multi, r.weighted = directed, multi, weighted
        r.groups = None if groups is None else np.asarray(groups)
        if groups is not None:
            r.ng = int(r.groups.max()) + 1
        r.TA = (r.T != 0).astype(float)
        r.A = (r.T.sum(axis=0) != 0).astype(float)
        r.W = r.T.sum(axis=0) if weighted else r.A
        return r

    # matrices
    @staticmethod
    def sym(M, weighted):
        if weighted:
            return M + M.T - np.diag(np.diag(M))
        return ((M != 0) | (M.T != 0)).astype(float)

    def matrix(self, directed, weighted):
        directed = directed and self.directed
        M = self.W if weighted else self.A
        if directed:
            return M
        return self.sym(M, weighted and self.weighted)

    def tensor(self, directed, weighted):
        directed = directed and self.directed
        T = self.T if weighted else self.TA
        if directed:
            return T
        return np.array([self.sym(M, weighted and self.weighted) for M in T]).reshape(T.shape)

    # scalars and sequences
    def count(self, M):
        if self.directed:
            return M.sum()
        return (M.sum() + np.trace(M)) / 2

    def num_edges(self):
        return self.count(self.matrix(True, False))

    def total_weight(self):
        return self.count(self.matrix(True, True))

    def num_edges_label(self):
        return np.array([self.count(M) for M in self.tensor(True, False)])

    def total_weight_label(self):
        return np.array([self.count(M) for M in self.tensor(True, True)])

    def by_group(self, M):
        res = np.zeros((self.n, self.ng))
        for j in range(self.n):
            res[:, self.groups[j]] += M[:, j]
        return res

    def queries(self):
        """name -> expected value, for every measure the class offers."""
        q = {
            "num_edges": self.num_edges(),
            "total_weight": self.total_weight(),
            "degree": self.matrix(False, False).sum(axis=1),
            "strength": self.matrix(False, True).sum(axis=1),
        }
        if self.directed:
            A, W = self.matrix(True, False), self.matrix(True, True)
            q["out_degree"] = A.sum(axis=1)
            q["in_degree"] = A.sum(axis=0)
            q["out_strength"] = W.sum(axis=1)
            q["in_strength"] = W.sum(axis=0)
        if self.groups is not None:
            q["degree_by_group"] = self.by_group(self.matrix(False, False))
            q["strength_by_group"] = self.by_group(self.matrix(False, True))
            if self.directed:
                q["out_degree_by_group"] = self.by_group(A)
                q["in_degree_by_group"] = self.by_group(A.T)
                q["out_strength_by_group"] = self.by_group(W)
                q["in_strength_by_group"] = self.by_group(W.T)
        if self.multi:
            q["num_edges_label"] = self.num_edges_label()
            q["total_weight_label"] = self.total_weight_label()
            q["degree_by_label"] = self.tensor(False, False).sum(axis=2).T
            q["strength_by_label"] = self.tensor(False, True).sum(axis=2).T
            if self.directed:
                TA, TW = self.tensor(True, False), self.tensor(True, True)
                q["out_degree_by_label"] = TA.sum(axis=2).T
                q["in_degree_by_label"] = TA.sum(axis=1).T
                q["out_strength_by_label"] = TW.sum(axis=2).T
                q["in_strength_by_label"] = TW.sum(axis=1).T
        return q

    def hood(self, ndir, selfloops):
        if not self.directed or ndir == "out-in":
            M = self.matrix(False, False)
        elif ndir == "out":
            M = self.matrix(True, False)
        else:
            M = self.matrix(True, False).T
        M = M.copy()
        if not selfloops:
            np.fill_diagonal(M, 0)
        return M

    def deg(self, ddir):
        if not self.directed or ddir == "out-in":
            return self.matrix(False, False).sum(axis=1)
        return self.matrix(True, False).sum(axis=1 if ddir == "out" else 0)

    def nn(self, prop, ndir, selfloops):
        """Average of prop over the neighbours; zero without neighbours."""
        M = self.hood(ndir, selfloops)
        d = M.sum(axis=1)
        tot = M.dot(prop)
        res = np.zeros(tot.shape)
        ok = d != 0
        res[ok] = (tot[ok].T / d[ok]).T
        return res


def positions(what, dct, vals):
    """dct must map exactly vals one-to-one onto 0..len-1."""
    try:
        items = {}
        for k, p in dct.items():
            if isinstance(k, tuple):
                k = tuple(x.item() if hasattr(x, "item") else x for x in k)
            elif hasattr(k, "item"):
                k = k.item()
            items[k] = int(p)
    except Exception as exc:
        raise core.Violation("%s dictionary unreadable: %s" % (what, exc))
    core.require(
        set(items) == set(vals) and len(items) == len(dct),
        "%s dictionary has keys %r, expected %r"
        % (what, sorted(map(str, items))[:20], sorted(map(str, vals))[:20]),
    )
    core.require(
        sorted(items.values()) == list(range(len(vals))),
        "%s dictionary is not one-to-one onto 0..%d" % (what, len(vals) - 1),
    )
    return items


def classify(case):
    """Tags used in the evidence, and what counts as non-trivial."""
    tags = [case["cls"], "w:" + (case.get("wdt") or "none"), "id:" + case["kind"]]
    e = case["edges"]
    seen = set()
    dup = rec = False
    for s, d, k, _ in e:
        if (s, d, k) in seen:
            dup = True
        if s != d and (d, s, k) in seen:
            rec = True
        seen.add((s, d, k))
    loop = any(s == d for s, d, _, _ in e)
    n = len(case["ids"])
    touched = {x for s, d, _, _ in e for x in (s, d)}
    if dup:
        tags.append("repeated link")
    if rec:
        tags.append("reciprocal link")
    if loop:
        tags.append("self loop")
    if len(touched) < n:
        tags.append("isolated vertex")
    if case["groups"] is not None:
        tags.append("groups")
    if n >= 255:
        tags.append("n>=255")
    if case["labels"] and len(set(x[2] for x in e)) > 1:
        tags.append("several labels")
    if case["labels"] and len(case["labels"]["vals"]) > 200:
        tags.append("labels>=255")
    nontrivial = n >= 2 and len(seen) >= 2 and (dup or rec or loop or len(e) >= 3)
    return nontrivial, tags
