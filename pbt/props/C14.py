"""Layered graphs and ensembles are stacks of plain ones."""
import copy

import numpy as np

from .. import core, ggen, mgen
from ..core import Target
from ..ggen import st

PROP = "C14"
RULE = (
    "each layer of a random layered graph is compared with the plain graph of the links "
    "with that label, and its projection with the plain graph without labels; random "
    "layered ensembles are compared with plain ensembles layer by layer, with the same "
    "ensemble after empty layers are added and layers reordered, after its vertices are "
    "renumbered, and (scale invariant) after the out-fitness of a plain ensemble is split "
    "over layers: all expectations, likelihoods and fits must agree; non-trivial: at least "
    "2 layers (or 1 split in 2) with 2 links (2 distinct probabilities)"
)
DIRS = ("out", "in", "out-in")


# ---------------------------------------------------------------------- graphs
def plain(case, keep):
    c = copy.deepcopy(case)
    c["cls"] = case["cls"].replace("Multi", "")
    c["edges"] = [e for e in case["edges"] if keep is None or e[2] == keep]
    c["labels"] = None
    return c


def check_graph(case, backend):
    g = ggen.build(case, backend)
    r = ggen.Ref(case, g)
    lv = ggen._col(case["labels"]["kind"], case["labels"]["vals"])
    total_e = total_w = 0
    for k in sorted({e[2] for e in case["edges"]}):
        c = plain(case, k)
        h = ggen.build(c, backend)
        q = ggen.Ref(c, h)
        perm = [q.pos[x] for x in sorted(r.pos, key=r.pos.get)]
        a = r.lpos[lv[k]]
        for name in ("degree", "strength", "out_degree", "in_degree", "out_strength",
                     "in_strength"):
            if not hasattr(h, name):
                continue
            x = core.dense(name, core.sut(name, getattr(h, name)))[perm]
            y = core.dense(name, core.sut(name + "_by_label", getattr(g, name + "_by_label")))
            core.close("%s_by_label() of layer %s against %s() of the links of that layer"
                       % (name, lv[k], name), y[:, a], x)
        for name in ("num_edges", "total_weight"):
            x = core.dense(name, core.sut(name, getattr(h, name)))
            y = core.dense(name, core.sut(name + "_label", getattr(g, name + "_label")))
            core.close("%s_label() against the links of that layer" % name, y[a], x)
            if name == "num_edges":
                total_e += float(x)
            else:
                total_w += float(x)
        for directed in (True, False):
            for weighted in (True, False):
                kw = dict(directed=directed, weighted=weighted)
                T = core.dense("tensor", core.sut("adjacency_tensor", g.adjacency_tensor, **kw))
                A = core.dense("matrix", core.sut("adjacency_matrix", h.adjacency_matrix, **kw))
                core.close("layer of adjacency_tensor(%s)" % kw, T[a],
                           A[np.ix_(perm, perm)].astype(float))
    if case["wkind"] != "none":
        core.close("total weight against its layers",
                   core.sut("total_weight", g.total_weight), total_w)
    # without labels
    c = plain(case, None)
    h = ggen.build(c, backend)
    q = ggen.Ref(c, h)
    perm = [q.pos[x] for x in sorted(r.pos, key=r.pos.get)]
    for name in ("degree", "strength", "out_degree", "in_degree", "out_strength",
                 "in_strength", "num_edges", "total_weight"):
        if not hasattr(h, name):
            continue
        x = core.dense(name, core.sut(name, getattr(h, name)))
        y = core.dense(name, core.sut(name, getattr(g, name)))
        core.close("%s() against the same links without labels" % name, y,
                   x[perm] if x.ndim else x)
    for ndir in DIRS:
        kw = dict(ndir=ndir) if r.directed else {}
        p = np.arange(r.n) * 1.5 - 1
        ph = np.empty(r.n)
        ph[perm] = p
        x = core.dense("nn", core.sut("average_nn_property", h.average_nn_property, ph, **kw))
        y = core.dense("nn", core.sut("average_nn_property", g.average_nn_property, p, **kw))
        core.close("average_nn_property() against the same links without labels", y, x[perm])


# ------------------------------------------------------------------- ensembles
def perm(draw, n):
    if n <= 20:
        return list(draw(st().permutations(range(n))))
    k = draw(st().integers(1, n - 1))
    return list(range(n - 1, k - 1, -1)) + list(range(k))


def ens_case(mo, **kw):
    s = st()

    @s.composite
    def build(draw):
        m = draw(mgen.model_case(models=(mo,), kinds=("float", "float", "int"),
                                 moderate=True, **kw))
        n, L = m["n"], m["L"]
        return {
            "m": m,
            "how": draw(s.sampled_from(["layers", "layers", "empty", "reorder", "renumber",
                                        "split"] if mo == "minv" else
                                       ["layers", "layers", "empty", "reorder", "renumber"])),
            "A": [draw(s.integers(0, 1)) for _ in range(min(n * n, 49))],
            "T": [draw(s.integers(0, 1)) for _ in range(min(n * n * L, 97))],
            "vperm": perm(draw, n),
            "lperm": perm(draw, L),
            "at": draw(s.lists(s.integers(0, 5), min_size=1, max_size=2)),
            "frac": draw(s.integers(1, 19)) / 20,
            "prop": mgen.cyc([draw(s.integers(-8, 8)) / 4 for _ in range(min(n, 7))], n),
            "order": draw(s.integers(0, 3)),
            "inside": draw(s.sampled_from([True, False, "but one", "but one"])),
            "odd": draw(s.integers(0, 40)),
        }

    return build()


def ask(m, what, name, *args, **kw):
    return core.dense(what, core.sut("%s %s" % (what, name), getattr(m, name), *args, **kw))


def answers(what, m, case, A, prop):
    """Everything a layered ensemble says about its projection."""
    r = {}
    for name in ("expected_num_edges", "expected_degree", "expected_out_degree",
                 "expected_in_degree"):
        r[name] = ask(m, what, name)
    for nd in DIRS:
        r["expected_av_nn_property(%s)" % nd] = ask(
            m, what, "expected_av_nn_property", prop, ndir=nd, selfloops=None)
        r["expected_av_nn_degree(%s)" % nd] = ask(
            m, what, "expected_av_nn_degree", ndir=nd, ddir=DIRS[case["order"] % 3],
            selfloops=None)
    r["log_likelihood"] = ask(m, what, "log_likelihood", A)
    return r


def layered(what, m, T):
    r = {}
    for name in ("expected_num_edges_label", "expected_degree_by_label",
                 "expected_out_degree_by_label", "expected_in_degree_by_label"):
        r[name] = ask(m, what, name)
    r["log_likelihood(tensor)"] = ask(m, what, "log_likelihood", T)
    return r


def compare(what, a, b, ign=()):
    for k in a:
        if k in ign:
            continue
        want, got = np.asarray(a[k], dtype=float), np.array(b[k], dtype=float)
        if "_nn_" in k and got.shape == want.shape:
            # nothing is asked of vertices whose links are rarer than the rounding
            d = {"(out": "out_", "(in)": "in_"}.get(k[k.index("("):][:4], "")
            d = "" if "out-in" in k else d
            deg = np.asarray(a["expected_%sdegree" % d], dtype=float)
            skip = (deg < 1e-6 * len(deg)) & np.isfinite(got.reshape(len(deg), -1)).all(axis=1)
            got[skip] = want[skip]
        core.close("%s: %s" % (what, k), got, want, rtol=1e-7, atol=1e-7)


def zero_diag(A, sl):
    if not sl:
        i = np.arange(A.shape[-1])
        A[..., i, i] = 0
    return A


def check_ens(case, backend):
    mc = dict(case["m"], order=case["order"])
    n, L = mc["n"], mc["L"]
    m = mgen.build(mc, backend)
    what = "%s %s" % (backend, mgen.NAMES[mc["model"]])
    A = zero_diag(np.resize(case["A"], (n, n)).astype(float), mc["sl"])
    T = zero_diag(np.resize(case["T"], (L, n, n)).astype(float), mc["sl"])
    if case["inside"]:
        lp, lq, lps, lqs = mgen.logs(mc)
        odd = case["odd"] if case["inside"] == "but one" else None
        A = mgen.possible(A, lp, lq, mc["sl"], odd)
        T = mgen.possible(T, lps, lqs, mc["sl"], odd)
    prop = np.array(case["prop"])
    how = case["how"]
    if how == "layers":
        lay = layered(what, m, T)
        like = 0.0
        for k in range(L):
            c = dict(mc, model=mc["model"][1:], x=[v[k] for v in mc["x"]],
                     y=[v[k] for v in mc["y"]], d=mc["d"][k])
            p = mgen.build(c, backend)
            w = "%s layer %d against the plain ensemble" % (what, k)
            for a, b in (("expected_degree_by_label", "expected_degree"),
                         ("expected_out_degree_by_label", "expected_out_degree"),
                         ("expected_in_degree_by_label", "expected_in_degree")):
                core.close("%s: %s" % (w, a), lay[a][:, k], ask(p, w, b), rtol=1e-9, atol=1e-12)
            core.close(w + ": expected_num_edges_label", lay["expected_num_edges_label"][k],
                       ask(p, w, "expected_num_edges"), rtol=1e-9, atol=1e-12)
            like += float(ask(p, w, "log_likelihood", T[k]))
            if L == 1:
                compare(what + " of one layer against the plain ensemble",
                        answers(what, p, case, A, prop), answers(what, m, case, A, prop))
        core.close("%s: log_likelihood of the layers against plain ensembles" % what,
                   lay["log_likelihood(tensor)"], like, rtol=1e-8, atol=1e-8)
        check_fit(case, mc, backend, what)
        return
    base = answers(what, m, case, A, prop)
    x, y = np.array(mc["x"]), np.array(mc["y"])
    if how == "empty":
        c = dict(mc)
        d = list(mc["d"])
        TT = list(T)
        for a in case["at"]:
            a = a % (x.shape[1] + 1)
            x = np.insert(x, a, 0, axis=1)
            y = np.insert(y, a, 0 if a % 2 else 1, axis=1)
            d.insert(a, d[0] if mc["single"] else 2.0)
            TT.insert(a, np.zeros((n, n)))
        c.update(L=x.shape[1], x=x.tolist(), y=y.tolist(), d=d)
        p = mgen.build(c, backend)
        w = what + " after adding empty layers"
        compare(w, base, answers(w, p, case, A, prop))
        core.close(w + ": log_likelihood of layers",
                   ask(p, w, "log_likelihood", np.array(TT)),
                   float(ask(m, w, "log_likelihood", T)), rtol=1e-8, atol=1e-8)
        core.close(w + ": links by label", np.sort(ask(p, w, "expected_num_edges_label")),
                   np.sort(np.concatenate([ask(m, w, "expected_num_edges_label"),
                                           np.zeros(len(TT) - L)])), rtol=1e-9, atol=1e-12)
    elif how == "reorder":
        o = case["lperm"]
        c = dict(mc, x=x[:, o].tolist(), y=y[:, o].tolist(), d=[mc["d"][k] for k in o])
        p = mgen.build(c, backend)
        w = what + " after reordering the layers"
        compare(w, base, answers(w, p, case, A, prop))
        l0, l1 = layered(what, m, T), layered(what, p, T[o])
        for k in l0:
            want = l0[k] if k.startswith("log") else l0[k][..., o]
            core.close("%s: %s" % (w, k), l1[k], want, rtol=1e-8, atol=1e-8)
    elif how == "renumber":
        o = case["vperm"]
        c = dict(mc, x=x[o].tolist(), y=y[o].tolist())
        p = mgen.build(c, backend)
        w = what + " after renumbering the vertices"
        b = answers(w, p, case, A[np.ix_(o, o)], prop[o])
        compare(w, {k: base[k] if base[k].ndim == 0 else base[k][o] for k in base}, b)
        l0, l1 = layered(what, m, T), layered(what, p, T[:, o][:, :, o])
        for k in l0:
            want = l0[k][o] if k.endswith("by_label") else l0[k]
            core.close("%s: %s" % (w, k), l1[k], want, rtol=1e-8, atol=1e-8)
    else:
        # out-fitness of a plain ensemble split over layers
        y0 = y[:, :1]
        c = dict(mc, y=np.repeat(y0, L, axis=1).tolist(), d=[mc["d"][0]] * L, single=True)
        p = mgen.build(c, backend)
        q = mgen.build(dict(c, model="inv", x=x.sum(axis=1).tolist(), y=y0[:, 0].tolist(),
                            d=mc["d"][0]), backend)
        w = what + " with the fitness of a plain ensemble split over its layers"
        compare(w, answers(w, q, case, A, prop), answers(w, p, case, A, prop))


def check_fit(case, mc, backend, what):
    """Per label, a fit is the fit of the plain ensembles."""
    n, L = mc["n"], mc["L"]
    x, y = np.array(mc["x"], dtype=float), np.array(mc["y"], dtype=float)
    mask = np.ones((n, n), bool) if mc["sl"] else ~np.eye(n, dtype=bool)
    top = [((np.outer(x[:, k], y[:, k]) > 0) & mask).sum() for k in range(L)]
    if min(top) == 0:
        return
    tgt = case["frac"] * np.array(top)
    kw = mgen.kwargs(mc)
    del kw["param"]
    m = mgen.construct(mc, backend, (), dict(kw, num_edges_label=tgt))
    core.sut(what + " fit()", m.fit)
    for k in range(L):
        c = dict(mc, model=mc["model"][1:], x=[v[k] for v in mc["x"]],
                 y=[v[k] for v in mc["y"]], d=1.0)
        kw = mgen.kwargs(c)
        del kw["param"]
        p = mgen.construct(c, backend, (), dict(kw, num_edges=tgt[k]))
        core.sut("fit()", p.fit)
        a, b = float(np.asarray(m.param)[k]), float(np.asarray(p.param)[0])
        # the same constraint: parameters agree as far as the tolerance of the
        # fit determines them
        lo = mgen.probs(dict(c, d=min(a, b)))[0].sum()
        hi = mgen.probs(dict(c, d=max(a, b)))[0].sum()
        core.require(hi - lo <= 1e-7 * max(tgt[k], 1),
                     "%s: layer %d fitted to %.12g links has parameter %.12g, the plain "
                     "ensemble has %.12g" % (what, k, tgt[k], a, b))


def classify_ens(case):
    nt, tags = mgen.classify(case["m"])
    return nt and (case["m"]["L"] > 1 or case["how"] == "empty"), tags + [
        case["how"], "possible links:%s" % case["inside"]]


def classify_graph(case):
    nt, tags = ggen.classify(case)
    return len({e[2] for e in case["edges"]}) > 1 and len(case["edges"]) > 2, tags


TARGETS = []
for b in ("dense", "sparse"):
    TARGETS.append(Target(
        "graph-" + b,
        lambda: ggen.graph_case(classes=("MultiGraph", "MultiDiGraph"), big=False),
        lambda c, b=b: check_graph(c, b), classify_graph, quick=300, thorough=8000,
        group=b + "-graph"))
for b in ("dense", "sparse", "local"):
    for mo in ("mfit", "minv"):
        TARGETS.append(Target(
            "ensemble-%s-%s" % (b, mo), lambda mo=mo: ens_case(mo, nmax=5, nmin=2),
            lambda c, b=b: check_ens(c, b), classify_ens,
            quick=60 if b == "local" else 300, thorough=8000 if b != "local" else 1500,
            group="%s-%s" % (b, mo)))
