#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/graph_ensembles/"
DG, SG = S + "graphs.py", S + "sparse/graphs.py"
DM, SE = S + "models.py", S + "sparse/models/ensembles.py"
SF, SI = S + "sparse/models/fitness.py", S + "sparse/models/invariant.py"
SR, SC = S + "sparse/models/random.py", S + "sparse/models/conditional.py"
SP, SO, LB = S + "spark/models.py", S + "solver.py", S + "lib.py"

TESTS = ("The repository's tests check a few hand-written graphs or vectors with fixed expected "
         "numbers; ")

P = [
    dict(id="C01", title="A graph holds exactly the vertices and links it was built from",
         statement="For every valid vertex and edge table, each graph class of each backend holds "
         "exactly the given vertices, groups, labels and links, whatever the identifier "
         "types, row order or index of the tables. Weights of repeated links add up, an "
         "undirected graph does not depend on the orientation in which its links are listed, "
         "and adjacency matrices and tensors (directed or not, weighted or not) show exactly "
         "these links, with self loops counted once. Vertices without links, and only these, "
         "are named in a warning.",
         over=["inputs", "configurations"],
         text="all vertex tables with unique identifiers (integer, float, string, multi-column), "
         "all edge tables over them with any multiplicity, orientation, weights, groups and "
         "labels; 4 classes x 2 backends",
         why=TESTS + "repeated and reciprocal links, self loops, isolated vertices and identifier "
         "types interact, and no sample of tables settles all combinations.",
         files=[DG, SG],
         mech=[("table to id/dtype mapping and adjacency accumulation", DG + " Graph.__init__"),
               ("sparse accumulation", SG + " Graph.__init__"),
               ("adjacency_matrix/adjacency_tensor", DG + ", " + SG)],
         obs=["adjacency_matrix()", "adjacency_tensor()", "id_dict, groups, label_dict"],
         tech="Hypothesis-generated tables against an edge-by-edge reference graph"),
    dict(id="C02", title="Graph measures equal the sums over the links of the graph",
         statement="For every graph, the number of links, total weight, degrees and strengths (in "
         "total, in and out, by group and by label) equal the corresponding counts and sums over "
         "its links. Both backends give the same answers, self loops count once, and in an "
         "undirected reading a reciprocal pair of links counts as one link.",
         over=["inputs", "configurations"],
         text="all graphs of the four classes and both backends, weighted (integer or real) or not",
         why=TESTS + "they do not compare measures with the links for arbitrary graphs.",
         files=[DG, SG],
         mech=[("degree/strength reductions", DG), ("group and label sums", DG + " sum_by_group"),
               ("sparse reductions", SG)],
         obs=["num_edges, total_weight, degree*, strength* (by group/label)"],
         tech="Hypothesis-generated graphs, every measure against a reference model"),
    dict(id="C03", title="Neighbour averages of a graph are plain averages over neighbours",
         statement="For every graph and every vertex property, the average over the neighbours "
         "of a vertex in a chosen direction equals the plain mean of the property over these "
         "neighbours, and is zero for a vertex without neighbours. Self loops enter only when "
         "requested, and the average neighbour degree is this average applied to the degree.",
         over=["inputs", "configurations"],
         text="all graphs, real vertex properties of one or two dimensions, directions out, in, "
         "out-in, self loops on or off",
         why=TESTS + "they use one property vector on one graph without self loops.",
         files=[DG, SG],
         mech=[("average_nn_property / average_nn_degree", DG + ", " + SG),
               ("av_nn_prop kernels", DG + " av_nn_prop, " + SG + " av_nn_prop")],
         obs=["average_nn_property()", "average_nn_degree()"],
         tech="Hypothesis-generated graphs and properties against explicit averages"),
    dict(id="C04", title="Asking a graph questions never changes its answers",
         statement="Whatever sequence of queries has been put to a graph, including refused ones "
         "and ones with other options, each query gives the answer it would give on a fresh "
         "graph, and the links of the graph and the answers given before stay as they were.",
         over=["histories", "inputs"],
         text="all graphs and all finite sequences of queries with all options",
         why="Answers are cached in the object; tests call each query once or twice in one order.",
         files=[DG, SG],
         mech=[("cached attributes with recompute options", DG + ", " + SG),
               ("average_nn_degree cache", DG + ", " + SG)],
         obs=["every query method"],
         tech="generated query histories against a stateless reference model"),
    dict(id="C05", title="Export to networkx carries the whole graph",
         statement="The networkx graph exported from any graph has the matching type and exactly "
         "the same vertices, identifiers, groups, links, labels and weights.",
         over=["inputs", "configurations"],
         text="all graphs of the four classes and both backends, original identifiers or indices",
         why=TESTS + "reciprocal and repeated links, labels and self loops are barely sampled.",
         files=[DG, SG], mech=[("to_networkx", DG + ", " + SG)], obs=["to_networkx()"],
         tech="round trip of generated graphs through networkx"),
    dict(id="C07", title="Expected links and degrees are sums of link probabilities",
         statement="For every ensemble with given parameters, the expected numbers of links and "
         "expected degrees (total, in, out, by label) equal the sums of the model's link "
         "probabilities over the pairs of vertices, self pairs only if self loops are allowed. "
         "A vertex without fitness has no expected links, overflowing fitness products mean "
         "probability one, and storage format and backend do not matter.",
         over=["inputs", "configurations"],
         text="random, fitness, scale-invariant and multi-layer ensembles, dense, sparse and spark, all "
         "non-negative fitnesses (zeros and huge values included), parameters and formats",
         why=TESTS + "each model is tested on one parameter vector; zeros, saturation and "
         "formats are not crossed.",
         files=[DM, SE, SF, SI, SR, SP],
         mech=[("exp_edges / exp_degrees kernels", DM + ", " + SE),
               ("p_ij, p_ijk", DM + ", " + SF + ", " + SI),
               ("merge of per-label fitnesses", SF + " p_ij, " + SI + " p_ij")],
         obs=["expected_num_edges*", "expected_degree*, expected_out/in_degree*"],
         tech="generated ensembles against explicit probability matrices"),
    dict(id="C08", title="Expected neighbour averages are ratios of expectations",
         statement="For every ensemble with given parameters and every vertex property, the "
         "expected average over neighbours equals the probability-weighted sum of the property "
         "over the other vertices divided by the expected degree in that direction, zero where "
         "that degree is zero. Self loops count exactly when the option of the call (or else of "
         "the model) says so, and other results of the model are unaffected by that option.",
         over=["inputs", "configurations"],
         text="all ensembles of C07, real properties, all neighbourhood and degree directions",
         why=TESTS + "directions, options and properties are sampled one at a time.",
         files=[DM, SE, SR, SP],
         mech=[("exp_av_nn_prop kernel", DM + ", " + SE),
               ("expected_av_nn_property/degree", DM + ", " + SE + ", " + SR)],
         obs=["expected_av_nn_property()", "expected_av_nn_degree()"],
         tech="generated ensembles and properties against explicit sums"),
    dict(id="C09", title="A converged fit meets its constraint, and failure is reported",
         statement="After fitting any ensemble to a number of links (in total or per label), the "
         "expected number of links under the fitted parameters equals the constraint within the "
         "requested tolerance whenever convergence is reported. A constraint the fitnesses can "
         "meet is met under default options, and lack of convergence is always flagged in the "
         "solver output and by a warning.",
         over=["inputs", "configurations"],
         text="all non-negative fitnesses, feasible and infeasible constraints, starting points, "
         "tolerances and iteration limits; all fitted ensembles, dense, sparse and spark",
         why=TESTS + "solver failures sit at borders of the feasible range and at extreme scales.",
         files=[DM, SF, SI, SR, SO, SP],
         mech=[("fit", DM + ", " + SF), ("exp_edges_f_jac, p_jac_ij", DM + ", " + SF + ", " + SI),
               ("monotonic_newton_solver", SO)],
         obs=["fit()", "param", "solver_output", "expected_num_edges*"],
         tech="generated fits judged by an independent expectation oracle"),
    dict(id="C10", title="Log-likelihood is the log probability of the given graph",
         statement="For every ensemble and every graph on its vertices, the log-likelihood equals "
         "the sum of the log probabilities of the links present and of the absences of the "
         "others (minus infinity for impossible graphs), however the graph is handed over; "
         "probabilities of all graphs add up to one. Graphs of the wrong size are refused.",
         over=["inputs", "configurations"],
         text="all ensembles of C07, all graphs inside and outside the support, dense, sparse, "
         "layered and graph-object representations, self loops counted or not",
         why=TESTS + "the space of graphs is exponential and formats multiply it.",
         files=[DM, SE, SF, SI, SR, SP],
         mech=[("log_likelihood and _likelihood kernels", DM + ", " + SE + ", " + SR),
               ("logp, log1mp", DM + ", " + SF + ", " + SI)],
         obs=["log_likelihood()"],
         tech="generated ensembles and graphs against summed log probabilities; total probability"),
    dict(id="C11", title="Sampled graphs follow the ensemble's link probabilities",
         statement="Every graph drawn from an ensemble is a valid graph on its vertices in which "
         "links are independent and each occurs with its stated probability: never where it is "
         "zero or a forbidden self loop, always where it is one. Names and groups of a reference "
         "graph carry over, and all measures of the drawn graph are right.",
         over=["inputs", "histories"],
         text="all ensembles of C07, self loops option of model or call, with or without "
         "reference graph, any random state",
         why="Distributional claims cannot be settled by single draws; tests compare one average "
         "with wide tolerance.",
         files=[DM, SE, SR, SP],
         mech=[("sample, _binary_sample*", DM + ", " + SE + ", " + SR)],
         obs=["sample()"],
         tech="generated ensembles, repeated seeded draws, Bernstein-bound statistics"),
    dict(id="C12", title="Sampled weights follow the stated weight distribution",
         statement="Weighted graphs drawn from an ensemble have links with the ensemble's link "
         "probabilities and positive weights with the stated distribution: for strength-based "
         "weights exponential with mean out-strength times in-strength over total strength and "
         "link probability, so that strengths are met on average; for random ensembles "
         "exponential or geometric with the fitted parameter. Strengths with different totals "
         "are refused, and expected total weights equal the closed form.",
         over=["inputs", "histories"],
         text="all ensembles of C07, all compatible strength sequences, any random state",
         why="Distributional; tests check one mean loosely.",
         files=[DM, SE, SR, SP],
         mech=[("_cremb_sample*, _weighted_sample, _discrete_weighted_sample",
                DM + ", " + SE + ", " + SR), ("expected_total_weight", DM + ", " + SR)],
         obs=["sample(weights=...)", "expected_total_weight()"],
         tech="generated ensembles, probability integral transform of seeded draws"),
    dict(id="C13", title="Conditional ensembles agree with the observed coarse graph",
         statement="In an ensemble conditioned on an observed coarse-grained graph, every drawn "
         "graph aggregates to exactly the observed links (weights shared out from observed "
         "weights add up to them), and draws, expected links and degrees, likelihoods and fits "
         "all follow the unconditional distribution conditioned on that observation.",
         over=["inputs", "configurations"],
         text="all fitnesses, partitions, possible observed graphs in any array format, "
         "parameters from zero up, self loops on or off",
         why=TESTS + "they use one partition and one observed graph.",
         files=[SC],
         mech=[("cond_p_ij, p_jac_ij", SC), ("block sampling until at least one link", SC),
               ("_agg_likelihood", SC)],
         obs=["sample()", "expected_*", "log_likelihood()", "fit()"],
         tech="generated partitions and observations against an exact conditional distribution"),
    dict(id="C16", title="Questions put to an ensemble never change its answers",
         statement="Whatever sequence of expectations, likelihoods, samples and refused requests "
         "an ensemble has served, each later answer is the one a fresh ensemble with the same "
         "parameters gives, and after a new fit answers requested anew describe the new "
         "parameters. Answers and graphs handed out before and the data given by the caller stay "
         "as they were.",
         over=["histories", "inputs"],
         text="all ensembles of C07, conditional ensembles and all finite sequences of requests with all options",
         why="Expectations are cached in the object and some calls change options temporarily; "
         "tests use one order.",
         files=[DM, SE, SR, SC, SP],
         mech=[("cached expectations with recompute options", DM + ", " + SE),
               ("temporary self-loops option in expected_av_nn_property", DM + ", " + SE)],
         obs=["every query method"],
         tech="generated request histories against a stateless reference model"),
]

try:
    from meta_more import MORE
    P = sorted(P + MORE, key=lambda p: p["id"])
except ImportError:
    pass

NOTE = ("Held on every generated case (counts, classes and samples in the evidence file); a "
        "search, not a proof. Trusted: the reference model in pbt/, numpy/scipy/numba/Hypothesis. "
        "{}")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["obs"], "hook_needed": None}}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
            "thorough_cmd": "./check %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing: " + p["tech"],
            "level": "exploration", "level_note": NOTE.format(p.get("note", "")).strip()}
            for p in P],
        "not_applicable": [],
        "notes": "No hooks in /repo. known_findings.json lists recorded and repaired defects.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
