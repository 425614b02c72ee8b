NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=(), **kw):
    return dict(
        id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
        why_tests_cant=why,
        anchors={
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        _technique=technique, _note=note, **kw)


TRUST = " Trusts the oracle code in vf/ (written from definitions, not from causy) and Hypothesis."

PROPERTIES = [
P("C01", "The graph store is an exact map of the edges put into it",
  "After any sequence of adding nodes and adding, updating or removing directed and undirected edges, every "
  "query of the graph (edge/directed/undirected/typed existence, value and type of an edge, parents, siblings, "
  "node and edge lists, by node or by id, on the store and on the view pipeline steps see) answers exactly as a "
  "plain map from ordered node pairs to (value, type) built by the same sequence. Operations that name unknown "
  "nodes, self loops, edges that do not exist (update) or an existing node id (add) raise an error and change nothing.",
  ["histories", "inputs"], "all histories of graph operations over any nodes, values and edge types",
  "tests call each operation once or twice on 2-3 nodes; the bookkeeping (forward, reverse, deleted maps) only "
  "disagrees after particular sequences.",
  ["causy/graph.py", "causy/graph_utils.py", "causy/edge_types.py"],
  [("forward and reverse adjacency kept in step", "causy/graph.py GraphManager.add_edge/remove_edge/update_edge")],
  "stateful property-based testing against a reference map",
  "Random histories, all queries compared after each operation." + TRUST,
  state=[("edges", "u id -> v id -> edge", "causy/graph.py Graph"), ("_reverse_edges", "v id -> u id -> edge", "causy/graph.py Graph")],
  observe=["GraphManager queries", "Graph queries", "graph_utils.retrieve_edges"]),
P("C02", "Soft-deleted edges are invisible, restorable, and purged without side effects",
  "A soft-deleted edge (direction) is invisible to every query except the one that asks for soft deletion, and is "
  "visible again after being restored. Restoring brings back each removed direction - soft-deleted, purged or removed "
  "outright - with the value and type it had when it was removed, restores nothing else, and is rejected if there is nothing to restore. "
  "Purging turns exactly the soft-deleted directions into removed ones and changes no other answer.",
  ["histories"], "all histories of edge operations with soft deletion, purge and restore",
  "two tests restore one edge each; one-directional removals, purge-then-restore and restore after re-adding are not reached.",
  ["causy/graph.py"],
  [("deleted flag on edges and the record of removed edges", "causy/graph.py remove_edge/restore_edge/purge_soft_deleted_edges")],
  "stateful property-based testing against a reference map",
  "Random histories, all queries compared after each operation." + TRUST,
  state=[("deleted", "soft-deletion flag", "causy/graph.py Edge"), ("_deleted_edges", "removed edges", "causy/graph.py Graph")],
  observe=["GraphManager queries after each operation"]),
P("C03", "Path and ancestry queries are exact and terminate on every graph",
  "On every graph - mixed, cyclic, disconnected, with deleted edges - the descendants of a node are exactly the node and what is reachable "
  "from it along edges that lead one way only; a directed path from u to v is reported exactly when one or more consecutive "
  "existing edges lead from u to v, and the listed directed paths and undirected-skeleton paths are exactly the simple ones, each once. "
  "The queries always terminate and ignore deleted edges.",
  ["inputs"], "all mixed graphs, all ordered pairs of distinct nodes",
  "tests cover chains of 2-4 nodes; cycles, undirected edges, shortcuts next to longer paths and isolated nodes are not covered.",
  ["causy/graph.py", "causy/edge_types.py"],
  [("recursive traversals with a visited set", "causy/graph.py descendants_of_node, directed_path_exists, all_paths_on_underlying_undirected_graph; causy/edge_types.py directed_paths")],
  "property-based testing against brute-force path enumeration",
  "Random mixed graphs up to 6 nodes, all pairs." + TRUST,
  observe=["descendants_of_node", "directed_path_exists", "directed_paths", "all_paths_on_underlying_undirected_graph"]),
P("C04", "d-separation in a DAG is exact",
  "For every DAG, every two nodes and every conditioning set without them, the d-separation query says 'separated' "
  "exactly when every path between the nodes is blocked by the set (graphical d-separation), whether the nodes and the set are given as nodes or ids and in either order of the two nodes. "
  "A conditioning set that contains one of the two nodes is rejected with an error.",
  ["inputs"], "all DAGs, node pairs and conditioning sets",
  "tests assert a few dozen hand-picked triples and small graphs; blocking depends on combinations of colliders along longer paths.",
  ["causy/graph.py"],
  [("path enumeration and collider blocking", "causy/graph.py are_nodes_d_separated_dag")],
  "exhaustive small DAGs plus random DAGs against moral-graph d-separation",
  "All DAGs up to 4 nodes exhaustively, random ones up to 6 nodes." + TRUST,
  observe=["are_nodes_d_separated_dag"]),
P("C05", "d-separation in a CPDAG equals d-separation in every DAG it represents",
  "For every CPDAG, every two nodes and every conditioning set without them, the CPDAG d-separation query says 'separated' exactly when "
  "the nodes are d-separated given the set in the DAGs of the equivalence class. "
  "A conditioning set that contains one of the two nodes is rejected with an error.",
  ["inputs"], "all equivalence classes of DAGs, node pairs and conditioning sets",
  "tests assert a handful of CPDAG queries; definite-status logic only matters on particular shielded patterns.",
  ["causy/graph.py"],
  [("definite-status paths", "causy/graph.py are_nodes_d_separated_cpdag")],
  "exhaustive small CPDAGs plus random ones against DAG enumeration",
  "All equivalence classes up to 4 nodes, random ones up to 6 nodes." + TRUST,
  observe=["are_nodes_d_separated_cpdag"]),
P("C06", "Generators produce exactly the node combinations a step must test",
  "For every graph, size range (0 = up to all nodes), chunking, shuffling and sampling setting, the combinations handed to a step are complete and free of duplicates: "
  "every set of nodes of each size for the all-combinations generator; every existing edge direction for the pairs-with-edges generator; "
  "and, on undirected graphs, for the pairs-with-neighbours generator every ordered adjacent pair with every subset of the right size of the first node's other neighbours. "
  "Chunking and shuffling change only grouping and order, sampling every n-th only drops combinations, and sizes too small for a generator are rejected.",
  ["inputs"], "all graphs and generator settings",
  "tests count combinations on complete graphs of 3-5 nodes; the chunked and unchunked code paths and 0/min/max corner cases are separate branches.",
  ["causy/generators.py"],
  [("itertools-based enumeration over nodes and adjacency", "causy/generators.py AllCombinationsGenerator/PairsWithNeighboursGenerator/PairsWithEdgesInBetweenGenerator/RandomSampleGenerator")],
  "property-based testing against direct enumeration",
  "Random graphs to 6 nodes and all settings, multiset comparison." + TRUST,
  observe=["generate() of each generator"]),
P("C07", "Independence tests decide by the sample's (partial) correlation",
  "For every data set, the correlation step stores the Pearson correlation of each adjacent pair, and each independence test removes an edge exactly when the p-value of the "
  "pair's (partial) correlation given the tested controls reaches the threshold, recording exactly those controls as separating set. "
  "The verdict does not depend on means and units of the variables; constant variables are uncorrelated with everything, perfectly correlated ones never independent, and neither makes a test fail.",
  ["inputs"], "all data sets, thresholds, graphs and node combinations",
  "tests check a few seeded samples with rounded numbers and zero means; a wrong formula can agree on those.",
  ["causy/common_pipeline_steps/calculation.py", "causy/causal_discovery/constraint/independence_tests/common.py", "causy/math_utils.py"],
  [("correlation, t-test / Fisher test", "causy/causal_discovery/constraint/independence_tests/common.py"), ("get_t_and_critical_t", "causy/math_utils.py")],
  "property-based testing against correlation-matrix arithmetic",
  "Random data sets up to 5 variables; p-values within 1e-7 of the threshold not judged." + TRUST,
  observe=["edge values after CalculatePearsonCorrelations", "actions of the independence tests"]),
P("C08", "Every removed edge has a valid separating set, every kept edge has none",
  "After any run of a shipped PC variant on any data set, each missing edge has a recorded separating set under which the two variables test independent at the given threshold, "
  "and each remaining edge tests dependent marginally, given every single common neighbour, and given every larger subset of the remaining neighbours of either end (PCStable: given every set of other variables). "
  "This also holds for every schedule of the parallel variant.",
  ["inputs", "schedules"], "all data sets, thresholds, algorithms and pool schedules",
  "tests fix one seeded data set per algorithm and compare the final graph; skipped or extra tests only show on other data.",
  ["causy/causal_discovery/constraint/algorithms/pc.py", "causy/causal_discovery/constraint/independence_tests/common.py", "causy/generators.py", "causy/graph_model.py"],
  [("skeleton phase of PC", "causy/causal_discovery/constraint/algorithms/pc.py")],
  "property-based testing against independent Fisher tests",
  "Random data sets 3-6 variables, parallel variant on an in-process pool with generated schedules." + TRUST,
  observe=["final graph", "separatedBy in the action history"]),
P("C09", "PC recovers the true equivalence class from faithful data",
  "For every DAG and every data set whose sample independences are exactly those of the DAG, each shipped PC variant returns the DAG's CPDAG: the same adjacencies, "
  "compelled edges one-way and typed directed, reversible ones two-way and typed undirected. "
  "This holds for any order, units and means of the variables and any schedule of the parallel variant.",
  ["inputs", "schedules"], "all DAGs with faithful data, all shipped algorithms and schedules",
  "tests use a few 3-5 node toy models; most structures, conditioning-set sizes and rule interactions are not reached.",
  ["causy/causal_discovery/constraint/algorithms/pc.py", "causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/causal_discovery/constraint/independence_tests/common.py", "causy/graph_model.py"],
  [("skeleton, collider and Meek phases", "causy/causal_discovery/constraint/algorithms/pc.py")],
  "exhaustive small DAGs plus random DAGs with exact-covariance data against brute-force CPDAGs",
  "All DAGs to 3 nodes, random to 6, every algorithm." + TRUST,
  observe=["edges and edge types of the result"]),
P("C10", "Orientation rules are sound and complete",
  "Given the skeleton of a DAG and valid separating sets, the orientation phase yields exactly the DAG's CPDAG whichever valid separating sets, node order and conflict strategy are used; "
  "with additional consistent directed edges the rule loop yields exactly the maximally oriented graph. "
  "Any single application of any rules only orients edges whose direction is the same in all DAGs consistent with the input.",
  ["inputs"], "all DAGs, separating sets, background knowledge, rule selections",
  "tests check each rule on its textbook pattern; interactions with other edges and order dependence are not covered.",
  ["causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/common_pipeline_steps/logic.py", "causy/graph_model.py"],
  [("ColliderTest and Meek rules", "causy/causal_discovery/constraint/orientation_rules/pc.py"), ("Loop", "causy/common_pipeline_steps/logic.py")],
  "exhaustive small DAGs plus random ones against enumeration of the equivalence class",
  "All DAGs to 4 nodes, random to 6." + TRUST,
  observe=["edges after the orientation phase"]),
P("C11", "Orientation never changes which variables are adjacent",
  "On any skeleton with any recorded separating sets - contradictory ones from finite samples included - and under either collider conflict strategy, the orientation phase terminates and keeps exactly the same pairs adjacent, "
  "leaving every adjacent pair either one-way and typed directed or two-way and typed undirected. "
  "On any partially directed (even cyclic) start the rules only remove one direction of two-way edges.",
  ["inputs"], "all skeletons, separating sets and strategies",
  "tests contain two or three collider conflicts; conflicts between different rules in the same pass are not reached.",
  ["causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/graph_model.py", "causy/common_pipeline_steps/logic.py"],
  [("conflict resolution", "causy/causal_discovery/constraint/orientation_rules/pc.py ColliderTest")],
  "property-based testing of invariants over arbitrary inputs",
  "Random skeletons on 3-7 nodes with random separating sets." + TRUST,
  observe=["edges after the orientation phase"]),
P("C12", "Direct effects are the regression coefficients of the final graph",
  "For every data set and graph, the direct effect attached to a one-way edge into a node without undirected edges is the coefficient of its tail in the least-squares regression of the head on all its parents, with any means and units. "
  "Two-way edges get no effect, no edge is added, removed or retyped, and on faithful data a full discovery run yields the structural coefficients.",
  ["inputs"], "all data sets and mixed graphs",
  "tests use zero-mean seeded samples with at most three parents and rounding.",
  ["causy/causal_effect_estimation/multivariate_regression.py", "causy/causal_discovery/constraint/algorithms/pc.py"],
  [("multivariate regression", "causy/causal_effect_estimation/multivariate_regression.py")],
  "property-based testing against least squares",
  "Random data sets and graphs to 6 nodes." + TRUST,
  observe=["direct_effect of edges"]),
P("C13", "The executor applies exactly the actions steps return",
  "For any pipeline, steps only propose: the graph after each step is the one obtained by applying the returned actions in order, skipping those that do not fit the graph, with removals visible at once and purged after the step; a step that asks for it is given the results it returned so far that are not applied yet. "
  "The history records exactly the applied actions and, separately, all proposed ones, per step and per edge; graph update hooks see and may filter each batch; edge type hooks are called around each applied change, and an error in one does not stop the run. "
  "Batch, synchronous, chunked, looped and apply-together modes differ only in when the changes become visible to later combinations; "
  "a loop asks its exit condition before every pass, with the number of finished passes and the actions of the last one.",
  ["histories", "inputs"], "all sequences of actions, execution modes and hooks",
  "tests run fixed algorithms; most actions (restore, type changes, directed updates) and mode combinations never meet.",
  ["causy/graph_model.py", "causy/common_pipeline_steps/logic.py", "causy/graph.py", "causy/interfaces.py"],
  [("_take_action", "causy/graph_model.py"), ("Loop / ApplyActionsTogether", "causy/common_pipeline_steps/logic.py")],
  "model-based testing with scripted steps against a reference interpreter",
  "Random scripts on 2-4 nodes, all modes." + TRUST,
  observe=["graph", "action history", "edge history", "hook calls"]),
P("C14", "The action history fully explains the result",
  "Replaying the recorded action history of any discovery run, action by action, on the complete undirected graph gives exactly the edges, edge types and edge values of the result. "
  "A recorded entry never changes after its step finished, recorded durations are non-negative and add up to no more than the time the run took, and runs do not share histories.",
  ["histories", "inputs"], "all data sets, thresholds and shipped algorithms",
  "tests look at history lengths and single entries; in-place changes of shared objects or unrecorded changes stay unseen.",
  ["causy/graph_model.py", "causy/common_pipeline_steps/calculation.py", "causy/causal_effect_estimation/multivariate_regression.py", "causy/graph.py"],
  [("action_history", "causy/graph_model.py execute_pipeline_step_with_progress")],
  "property-based testing by replaying the history in a reference interpreter",
  "Random data sets 3-5 variables, all shipped algorithms." + TRUST,
  observe=["graph.action_history", "final graph"]),
P("C15", "Parallel execution gives the sequential result under every schedule",
  "A step run in parallel evaluates every combination exactly once and leaves the same graph and the same applied and proposed actions (as a multiset) as the same step run sequentially, "
  "however the pool groups, orders and interleaves the work, with chunked generators, inside loops and with actions applied together. "
  "It holds for steps whose verdicts do not depend on each other's changes.",
  ["schedules", "inputs"], "all schedules, chunk sizes and order-independent steps",
  "tests run the real pool once or twice with whatever schedule the machine gives.",
  ["causy/graph_model.py", "causy/common_pipeline_steps/logic.py", "causy/contrib/graph_ui.py"],
  [("multiprocessing pool", "causy/graph_model.py execute_pipeline_step"), ("unpack_run", "causy/graph_utils.py")],
  "differential property-based testing with generated pool schedules",
  "In-process pool with generated schedules, a few runs on the real pool." + TRUST,
  observe=["graph", "action history", "combinations evaluated"]),
P("C16", "Every data format yields exactly the data that was given",
  "A rectangular table given as list of rows, dict of columns, JSON list, JSON dict, JSONL file or through a dynamic loader becomes exactly one node per column with the column's name and values in row order, "
  "and discovery gives the same result from each format. "
  "The hash of a data loader is equal for equal content and options and differs if the content or the options differ.",
  ["inputs"], "all tables, column names and formats",
  "tests load one fixed small table per format.",
  ["causy/data_loader.py", "causy/graph_model.py", "causy/graph.py"],
  [("loaders", "causy/data_loader.py"), ("create_graph_from_data", "causy/graph_model.py")],
  "property-based testing against the generated table; differential between formats",
  "Tables up to 5 columns x 8 rows (plus discovery runs)." + TRUST,
  observe=["graph.nodes", "loader.hash()"]),
P("C17", "Results depend on the data only",
  "Permuting the rows of a data set, shifting or rescaling variables, or consistently renaming them leaves every removal, separating set and orientation of a discovery run the same (direct effects scale with the units). "
  "Discovery runs and seeded sample generators give identical results, histories and hashes in every process, whatever its hash seed, and when run twice in one process.",
  ["inputs", "histories"], "all data sets, transformations, processes",
  "a test compares with one fixed value in one process; unit-, name- or hash-order dependence is invisible there.",
  ["causy/causal_discovery/constraint/algorithms/pc.py", "causy/math_utils.py", "causy/generators.py", "causy/sample_generator.py", "causy/graph_model.py"],
  [("iteration order over nodes and edges", "causy/graph.py, causy/generators.py")],
  "metamorphic property-based testing; differential between processes with different hash seeds",
  "Random data sets 3-5 variables; p-values within 1e-6 of the threshold not judged." + TRUST,
  observe=["edges", "action history", "algorithm hash", "generated samples"]),
P("C18", "Algorithm definitions survive serialization unchanged",
  "Any algorithm built from the shipped steps - settings, generators, variable references, nested loops, hooks, edge types - holds exactly the settings it was given, and serialized to a dict, JSON or YAML (eject command included) and loaded again has the same definition and the same hash, "
  "produces the same edges and recorded actions on any data set, and loading does not change its input. "
  "Two algorithms whose definitions differ have different hashes, and loading the same reference twice gives independent algorithms.",
  ["inputs"], "all algorithm definitions and serialization formats",
  "tests round-trip two or three algorithms with default settings.",
  ["causy/serialization.py", "causy/models.py", "causy/interfaces.py", "causy/generators.py", "causy/cli.py", "causy/common_pipeline_steps/logic.py"],
  [("SerializeMixin", "causy/serialization.py"), ("Algorithm.hash", "causy/models.py")],
  "round-trip property-based testing over generated algorithm definitions",
  "1-9 steps, nested, all shipped kinds." + TRUST,
  observe=["model_dump", "hash", "discovery runs"]),
P("C19", "Stored results load back exactly",
  "Any result - nodes with any ids and names, edges of every type with their values, nested action history with separating sets and type changes, variables, hashes, creation time - written the way causy writes results and read back says exactly the same, "
  "also after a second trip. "
  "This includes results of real discovery runs, of the execute command and of the workspace's result files.",
  ["inputs"], "all results",
  "tests write one result and check a few fields.",
  ["causy/serialization.py", "causy/models.py", "causy/graph.py", "causy/workspaces/cli.py", "causy/cli.py"],
  [("deserialize_result", "causy/serialization.py"), ("CausyJSONEncoder", "causy/serialization.py")],
  "round-trip property-based testing over generated results and discovery runs",
  "2-5 nodes, all action kinds." + TRUST,
  observe=["deserialize_result"]),
P("C20", "Variables are resolved exactly, and only valid values are accepted",
  "A model built from an algorithm has, in every step, generator, comparison setting and nested step, exactly the values given for the variables referred to (all defaults if none are given) and every other setting unchanged; the algorithm itself stays unchanged, so that models built from it with different values are independent. "
  "References to variables that do not exist are rejected. "
  "A value is accepted exactly if its name is known, it has the variable's type (a bool is no integer, an integer no float) and is one of the choices, if there are any; values that are not given take their defaults.",
  ["inputs", "histories"], "all algorithms, variables and values",
  "tests resolve one flat step once and check a few values per type.",
  ["causy/variables.py", "causy/graph_model.py"],
  [("resolve_variables_to_algorithm_for_pipeline_steps", "causy/variables.py"), ("graph_model_factory", "causy/graph_model.py")],
  "property-based testing against the algorithm written out with the values",
  "Generated algorithms with 1-9 steps, sequences of models from one algorithm." + TRUST,
  observe=["settings of the model's steps", "validate_value", "resolve_variables"]),
P("C21", "Workspace execution re-runs exactly what changed and stores what was run",
  "Executing a workspace runs an experiment exactly if it has no stored result, execution is forced, its data loader cannot tell (no hash), its latest stored result cannot be read (cut off by a crash), or its algorithm definition, its effective variable values (defaults included), its data or its loader options differ from those of its latest stored result; naming an experiment always runs it. "
  "Every run adds one stored result, also within the same second as another (of this or another process), that equals a direct run of the algorithm with those variables on that data, with the variables and the algorithm reference used; data replaced during a run counts as changed afterwards. "
  "Other results, other experiments (also with similar names) and other files stay as they are.",
  ["histories"], "all histories of workspace edits and commands",
  "there are no tests of workspaces; caching mistakes need a change between two executions.",
  ["causy/workspaces/cli.py", "causy/data_loader.py", "causy/models.py", "causy/graph_utils.py", "causy/serialization.py"],
  [("_experiment_needs_reexecution", "causy/workspaces/cli.py"), ("_execute_experiment", "causy/workspaces/cli.py")],
  "model-based testing of command histories",
  "Histories of 2-16 commands and edits, 1-3 experiments." + TRUST,
  state=[("stored results", "<experiment>_<unix time>.json", "causy/workspaces/cli.py _save_experiment_result")],
  observe=["files in the workspace", "content of the stored results"]),
P("C22", "Workspace commands change exactly what they say",
  "After any sequence of workspace commands (init, add and rm of pipelines, data loaders and experiments, clear, update-variable, info) the workspace file holds exactly the entries, references, options and typed variable values the commands put there; parts still in use are not removed, and refused commands (unknown names, values of the wrong type or not among the choices, init over an existing workspace without consent) and prompts left by Ctrl-C change nothing. "
  "rm and clear of an experiment delete exactly the stored results of that experiment; versions are listed newest first and loaded by number, whatever other files or similarly named experiments exist. "
  "What the commands create can be executed.",
  ["histories"], "all histories of workspace commands",
  "there are no tests of workspaces.",
  ["causy/workspaces/cli.py", "causy/workspaces/models.py", "causy/variables.py"],
  [("write_to_workspace / _current_workspace", "causy/workspaces/cli.py"), ("_load_experiment_versions / _clear_experiment", "causy/workspaces/cli.py")],
  "model-based testing of command histories through the command line and its prompts",
  "Histories of 1-5 commands; prompts driven through a terminal stand-in." + TRUST,
  observe=["workspace.yml", "files in the workspace"]),
P("C23", "File references never reach outside of the working directory",
  "An algorithm file reference is loaded exactly if the file it leads to - after resolving '..', absolute paths and symbolic links - lies inside of the current working directory; otherwise it is refused and the file is not even opened, also when a sibling directory's name starts with the working directory's name. "
  "The same holds for the UI's algorithm endpoint (which serves plain file names inside) and for executing a workspace.",
  ["inputs"], "all directory layouts and ways to write a reference",
  "a test tries one reference with '..'.",
  ["causy/serialization.py", "causy/ui/server.py"],
  [("realpath check", "causy/serialization.py load_algorithm_by_reference"), ("get_algorithm", "causy/ui/server.py")],
  "property-based testing over generated directory trees with an open-file monitor",
  "Scratch trees only; 9 places x 7 links x 6 spellings." + TRUST,
  observe=["load_algorithm_by_reference", "GET /api/v1/algorithm/file/...", "files opened"]),
P("C24", "Sample generators obey their structural equations",
  "For every acyclic set of weighted edges, each sample of the i.i.d. generator gives every variable the weighted sum of its parents plus one noise value, every noise value drawn being used exactly once; cyclic sets are rejected. "
  "For lagged edges of a stable system the time series generator does the same for every point in time that lies all of the variable's lags after the start, and draws first values with the standard deviation of the stationary distribution. "
  "The returned graph has exactly the variables (per point in time) with the generated values, and exactly the given edges.",
  ["inputs"], "all edge sets, weights, names, sizes",
  "tests generate a handful of fixed models, mostly without noise.",
  ["causy/sample_generator.py"],
  [("topologic_sort", "causy/sample_generator.py"), ("_generate_data", "causy/sample_generator.py")],
  "property-based testing of residuals against the noise drawn",
  "2-6 variables, lags 1-3, integer noise (exact arithmetic)." + TRUST,
  observe=["generate()"]),
P("C25", "The UI API serves exactly what is stored",
  "At any moment, also while results are stored or deleted during a request, the API's workspace, experiment list (versions newest first), latest and numbered results and loaded model say exactly what the workspace, the result files and the model say - nodes, edges with types and values, history, typed variables, hashes, times, version number - and status tells what is loaded. "
  "Unknown experiments, versions, algorithms and reference types and results cut off by a crash are refused with a client error, and algorithms are served with their full definition.",
  ["inputs", "histories"], "all workspaces, results and request sequences",
  "tests request each endpoint once with an empty or missing result.",
  ["causy/ui/server.py", "causy/ui/models.py", "causy/workspaces/cli.py", "causy/serialization.py"],
  [("API_ROUTES", "causy/ui/server.py")],
  "property-based testing of request sequences against the stored files",
  "1-3 experiments, 0-3 versions, 2-10 requests." + TRUST,
  observe=["JSON responses and status codes"]),
P("C26", "The diff command lists exactly the differences between results",
  "Comparing any stored results, by experiment (latest) or by version, the table lists every pair of variables adjacent in any of them once, and shows for each result its edge as seen from the row's label (undirected, pointing right, pointing left, or nothing). "
  "With only-differences it lists exactly the pairs that are not the same in all results; results that do not exist are refused.",
  ["inputs"], "all sets of results",
  "there are no tests of the command.",
  ["causy/workspaces/cli.py", "causy/interfaces.py"],
  [("diff", "causy/workspaces/cli.py"), ("EdgeInterface.__eq__", "causy/interfaces.py")],
  "property-based testing against the pairwise comparison of the generated results",
  "2-4 results over 2-4 variables." + TRUST,
  observe=["table printed by the command"]),
]
