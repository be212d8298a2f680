"""Further rows of the table of properties."""
S = "src/graph_ensembles/"
DG, SG = S + "graphs.py", S + "sparse/graphs.py"
DM, SE = S + "models.py", S + "sparse/models/ensembles.py"
SF, SI = S + "sparse/models/fitness.py", S + "sparse/models/invariant.py"
SR, SC = S + "sparse/models/random.py", S + "sparse/models/conditional.py"
SP, SO, LB = S + "spark/models.py", S + "solver.py", S + "lib.py"

MORE = [
    dict(id="C06", title="Input that describes no graph or ensemble is refused",
         statement="Tables with repeated vertices, links to unknown vertices or weights which are "
         "not positive, ensembles with missing, unknown, negative, misshapen or non-numeric "
         "arguments, questions put before a fit and questions with unknown options or wrong "
         "sizes all raise an error. A refused call leaves the caller's data and the object asked "
         "as they were.",
         over=["inputs", "configurations"],
         text="all valid inputs spoiled in one way at any place; graph classes of both backends, all "
         "ensembles of the dense, sparse and spark backends and the conditional ensemble",
         why="Tests spoil one fixed input at one place; a check that looks at part of the data "
         "passes them.",
         files=[DG, SG, DM, SE, SF, SR, SC, SP],
         mech=[("validation in constructors", DG + ", " + SG + ", " + DM + ", " + SF + ", " + SR
                + ", " + SC + ", " + SP),
               ("validation of requests", DM + ", " + SE)],
         obs=["constructors", "fit()", "query methods"],
         tech="generated valid inputs spoiled at a generated place; the call must raise"),
    dict(id="C14", title="Layered graphs and ensembles are stacks of plain ones",
         statement="Each layer of a layered graph measures like the plain graph of its own links, "
         "and its projection like the plain graph without labels; each layer of a layered ensemble "
         "has the expectations, likelihood and fit of the plain ensemble with that layer's fitness "
         "and parameter. Adding an empty layer, reordering layers or renumbering vertices changes "
         "no answer other than by that reordering, and a scale-invariant ensemble whose "
         "out-fitness is split over layers with the same in-fitness stays the same ensemble.",
         over=["inputs", "configurations"],
         text="all layered graphs of both backends and all layered ensembles of the dense, sparse "
         "and spark backends with moderate probabilities; all permutations of layers and vertices",
         why="Relates answers of different objects; tests compare each with stored numbers of one "
         "example whose layers are few and of one shape.",
         files=[DG, SG, DM, SF, SI, SP],
         mech=[("adjacency tensor, *_by_label", DG + ", " + SG),
               ("layer sums, product over layers", DM + ", " + SF + ", " + SI + ", " + SP)],
         obs=["every query of MultiGraph, MultiDiGraph, MultiFitnessModel and MultiInvariantModel"],
         tech="metamorphic relations between generated layered objects and plain ones"),
    dict(id="C15", title="Scale-invariant ensembles keep their form under aggregation",
         statement="For every scale-invariant ensemble with self loops (plain or layered) and partition of its "
         "vertices, the ensemble of the groups with summed fitnesses and the same parameter gives "
         "two groups a link with the probability that some link joins their vertices, the same "
         "expected links, likelihoods and fit as implied by the ensemble of the vertices, and "
         "sampled graphs aggregate accordingly. Merging in several steps or at once is the same.",
         over=["inputs", "configurations"],
         text="all scale-invariant and layered scale-invariant ensembles of the dense, sparse and "
         "spark backends with self loops, all partitions of up to 8 vertices",
         why="A relation between two ensembles, for any partition; no test relates two ensembles.",
         files=[DM, SI, SP],
         mech=[("p_ij, log_p, log_1mp of the scale-invariant models", DM + ", " + SI + ", " + SP)],
         obs=["expected_*()", "log_likelihood()", "fit()", "sample()"],
         tech="metamorphic relation between an ensemble and its aggregates under generated "
         "partitions; statistical comparison of aggregated samples"),
    dict(id="C17", title="Spark ensembles answer as defined, however the work is split",
         statement="For every ensemble of the spark backend and every number of parallel blocks, "
         "expectations, neighbour averages, likelihoods, fits and samples obey the same "
         "definitions as in the other backends, and the confusion matrix counts each admissible "
         "pair once by presence of the link and by probability at or above the threshold. The "
         "order in which partial results arrive does not matter.",
         over=["inputs", "configurations", "schedules"],
         text="all random, fitness, scale-invariant and multi-layer spark ensembles, all numbers of "
         "vertices and blocks (with remainder, fewer vertices than blocks), all orders of arrival "
         "of partial results",
         why="Tests use three or four vertices (two blocks) and one schedule; block borders, "
         "remainders and the triangular split only show with other sizes.",
         files=[SP],
         mech=[("p_iter_rdd, p_sym_rdd, layers_rdd", SP), ("fit_map, in_range", SP),
               ("fold of partial results", SP)],
         obs=["every public method of the spark models"],
         tech="generated ensembles and partitions against an explicit probability matrix, on a "
         "stand-in context and on a real local Spark",
         note="Real Spark decides a smaller number of cases than the in-process stand-in."),
    dict(id="C18", title="Pagerank and trophic depth solve their defining equations",
         statement="For every graph, class and backend, pagerank returns the stationary "
         "distribution of the damped random walk on the directed graph (weighted or not, "
         "vertices without out-links jump anywhere, layers add up), and trophic_depth returns "
         "the solution of its defining weighted averages, within the requested tolerance. "
         "Neither changes the graph or its inputs.",
         over=["inputs", "configurations"],
         text="all graphs of 4 classes x 2 backends with non-negative weights, damping in [0, 1), "
         "weighted or not; for the trophic depth all positive or zero sizes of the links to the "
         "final node for which the iteration converges",
         why="The tests use two small graphs; dangling vertices, self loops, parallel links and "
         "weight types each change the equations.",
         files=[LB],
         mech=[("normalise_rows, propagate_measure", LB), ("pagerank, trophic_depth", LB)],
         obs=["lib.pagerank()", "lib.trophic_depth()"],
         tech="generated graphs against the directly solved linear systems"),
    dict(id="C19", title="The root finder reports convergence only at a root in the bracket",
         statement="For every monotonic function, target, starting point, bracket and "
         "tolerances, monotonic_newton_solver reports convergence exactly when the returned "
         "point meets the target within atol + rtol * target, stays in the bracket, stops within "
         "the iteration limit, and records the points it visited. For increasing concave functions "
         "and reachable targets it finds the root.",
         over=["inputs", "configurations"],
         text="all smooth monotonic functions on a bracket, all non-negative targets (reachable or "
         "not), starting points, tolerances, iteration limits and both return styles",
         why="Convergence of a safeguarded Newton iteration depends on the shape of the function "
         "and on the starting point; tests use a few functions.",
         files=[SO],
         mech=[("monotonic_newton_solver", SO), ("Solution", SO)],
         obs=["monotonic_newton_solver()", "Solution.x, converged, norm_seq, x_seq, n_iter"],
         tech="generated monotonic functions against exact evaluation and bisection"),
    dict(id="C20", title="An ensemble built from a graph is that of the graph's quantities",
         statement="An ensemble built from a graph (or from a graph and its coarse graph) is the "
         "one given by the number of vertices and links, total weight, strengths, layers and groups "
         "counted from the graph's links, with explicitly given arguments taking precedence; its "
         "fit meets the graph's number of links, and it judges the graph itself by its own links. "
         "Building it, and drawing graphs with the names of the graph, leave the graph as it was.",
         over=["inputs", "configurations"],
         text="all graphs of the accepted classes (repeated and reciprocal links, self loops, "
         "isolated vertices, any weights, labels, groups), all ensembles of the dense, sparse and "
         "spark backends, all combinations of overriding arguments",
         why="Tests build ensembles from one or two graphs without self loops or repeated links.",
         files=[DM, SE, SF, SI, SR, SC, SP],
         mech=[("constructors of ensembles", DM + ", " + SF + ", " + SR + ", " + SC + ", " + SP)],
         obs=["constructors with a graph", "fit()", "expected_*()", "log_likelihood(graph)"],
         tech="generated graphs and overrides against an ensemble given by quantities counted "
         "link by link"),
]
