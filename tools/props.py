AI = "static analysis: abstract interpretation of the source into guarded heap summaries, compared with "
PROPS = [
dict(id="C01", title="Both edge indexes of a graph always describe the same edges",
 statement="After any sequence of edge insertions, updates, removals, restorations and purges, looking an edge up from its source and looking it up from its target gives the same edge with the same state, or no edge in both cases. This also holds when an operation is rejected with an error. No part of the library outside the graph itself edits the lookup structures.",
 over=["histories","inputs"], forall="every history of edge operations on every pair of nodes, including rejected operations",
 why="Tests build a handful of small graphs and query them mostly from the source side; a stale entry on the target side only shows after particular remove/restore sequences.",
 files=["causy/graph.py"], mech=[("edge insertion, removal, restoration, purge","causy/graph.py GraphManager"),("forward and backward index","causy/graph.py Graph")],
 tech=AI+"an inductive index invariant (per mutator, per exit)"),
dict(id="C02", title="Graph queries answer exactly from the live edges",
 statement="Every read-only question about a graph (does an edge, directed edge, undirected edge or edge of a type exist, what value or type does it carry, what are the parents, siblings and neighbours, which edges are there) is answered exactly from the edges that are present and not soft deleted, in the direction asked for. Unknown nodes give a negative answer, and asking never changes the graph.",
 over=["inputs","histories"], forall="every graph state satisfying the index invariant, every pair of nodes, present or absent, soft deleted or not",
 why="The answer depends on the combination of presence, direction, soft deletion and type on both directions; tests exercise a few of the combinations and never all on one query.",
 files=["causy/graph.py","causy/graph_utils.py"], mech=[("edge queries","causy/graph.py GraphAccessMixin, GraphManager"),("edge listing helper","causy/graph_utils.py retrieve_edges")],
 tech=AI+"a reference model of each query"),
dict(id="C03", title="Edge mutations change exactly the named edge, or nothing at all",
 statement="Adding, updating, retyping, removing, soft removing and restoring an edge changes exactly the named direction or directions in exactly the documented way and leaves every other edge untouched. A request that is invalid (unknown node, self loop, duplicate insertion, missing edge) is rejected with a graph error and leaves the graph unchanged. Removing and then restoring an edge gives back the edge that was there.",
 over=["inputs","histories"], forall="every mutating operation on every prior state of the edge in both directions",
 why="Tests check one prior state per operation; the effect must be right for every combination of presence, soft deletion and history of both directions.",
 files=["causy/graph.py"], mech=[("edge mutators","causy/graph.py GraphManager")],
 tech=AI+"a per-operation post-state specification"),
dict(id="C05", title="Applying a test result changes the graph exactly as its action says",
 statement="When test results are applied, each one changes the graph exactly as its action kind says (value, type, removal, restoration, of one or both directions), results are applied in order, and a result whose edge is not in the required state changes nothing and does not fail. In dry run mode nothing in the graph changes.",
 over=["inputs","histories"], forall="every action kind, every prior edge state, single results, empty results and lists of results, dry run or not",
 why="Tests run whole algorithms on a few data sets, where most kind/state combinations never occur.",
 files=["causy/graph_model.py","causy/models.py"], mech=[("action application","causy/graph_model.py AbstractGraphModel._take_action"),("action kinds","causy/models.py TestResultAction")],
 tech=AI+"a per-action-kind effect table"),
dict(id="C06", title="The record of actions tells exactly what was changed",
 statement="The list of taken actions returned for a batch contains exactly the results that were applied, in order (all proposed ones in a dry run), and the list of proposed actions contains every result. Every applied action is appended exactly once to the history of each direction it changed, and skipped or dry run actions never are. Asking for the history of an edge returns these entries, optionally only those of one kind.",
 over=["histories","inputs"], forall="every action kind and prior edge state, dry run or not",
 why="The record drives loop termination and the audit trail; tests only look at lengths of a few histories.",
 files=["causy/graph_model.py","causy/graph.py"], mech=[("action record","causy/graph_model.py _take_action"),("edge history","causy/graph.py add_edge_history, retrieve_edge_history")],
 tech=AI+"an exact specification of the returned lists and appended history"),
dict(id="C11", title="Update hooks see and rewrite every batch; edge type hooks see every change",
 statement="Hooks registered to run before graph updates are called once per batch, in registration order, each receiving what the previous one returned, and the results returned by the last one are the ones applied. Hooks registered to run after updates are called once per batch, in order, after the batch was applied, with exactly the actions that were applied. Without hooks, results are applied unchanged. For every result that updates, removes or changes the type of an edge, and only if it is applied, the matching hooks of the type which the edge from u to v has at that moment are called once each with the graph and the result, the pre hook before and the post hook after the graph was changed; a hook of an edge type that fails stops nothing.",
 over=["configurations","inputs"], forall="every list of hooks and every batch of results",
 why="Tests register at most one hook of each sort.",
 files=["causy/graph_model.py","causy/interfaces.py"], mech=[("hook execution","causy/graph_model.py")],
 tech=AI+"the required call sequence with its arguments"),
dict(id="C08", title="A step processes every combination once and applies its results as configured",
 statement="Executing a pipeline step runs the step exactly once on every combination its generator yields, in order when not parallel, with the graph as it was before the step, except that a step asking for synchronous application sees every earlier result already applied and a step asking for unapplied actions is handed the results proposed so far but not applied yet. All results are then applied in order, once, and both the applied and the proposed ones are returned. With application to the graph switched off nothing changes and every proposal is returned. A step may return nothing, one result or a list. A parallel step works whether or not a worker pool exists yet.",
 over=["inputs","configurations","schedules"], forall="every combination of parallel, chunked, synchronous, unapplied-actions and apply flags, and every shape of result",
 why="The modes multiply; tests run the default mode and a few others on fixed data, and most mode combinations are never executed.",
 files=["causy/graph_model.py","causy/graph_utils.py"], mech=[("step execution","causy/graph_model.py execute_pipeline_step"),("worker entry point","causy/graph_utils.py unpack_run")],
 tech=AI+"the required sequence of calls, visible graph states, final state and returned lists, per mode"),
dict(id="C09", title="A pipeline runs every step in order, purges after each and records each once",
 statement="Executing the pipeline runs every step and every logic step exactly once, in the configured order, whatever the steps return. After each of them the soft deleted edges are purged, so that a later step never sees an edge removed by an earlier one. The action history of the graph gets exactly one entry per step, in order, naming the step with the actions it applied and the actions it proposed, or the entry returned by a logic step.",
 over=["configurations","histories"], forall="every order of steps and logic steps, with every result",
 why="Tests use fixed pipelines in which a missed purge or an early stop rarely changes the outcome.",
 files=["causy/graph_model.py"], mech=[("pipeline execution","causy/graph_model.py execute_pipeline_steps, execute_pipeline_step_with_progress")],
 tech=AI+"the required event sequence and history entries"),
dict(id="C10", title="Loops and grouped steps run, stop and apply exactly as defined",
 statement="A loop asks its exit condition before every iteration with the graph, the model, the iteration number counted from zero and exactly the actions taken in the previous iteration, and runs every one of its steps once per iteration, in order, until the condition says stop. The no-actions condition never stops before the first iteration and afterwards stops exactly when the previous iteration took no action. Steps whose actions are applied together all see the unchanged graph, and then all their actions are applied once, in order. The history entry of a loop or group has one sub entry per executed step.",
 over=["histories","configurations"], forall="every number of iterations and every set of actions",
 why="Termination and the number of passes depend on what was found in each pass; tests see one or two passes.",
 files=["causy/common_pipeline_steps/logic.py","causy/common_pipeline_steps/exit_conditions.py"], mech=[("loop and group","causy/common_pipeline_steps/logic.py Loop, ApplyActionsTogether"),("exit condition","causy/common_pipeline_steps/exit_conditions.py ExitOnNoActions")],
 tech=AI+"the required event sequence for loops ending after 0 to 3 iterations"),
dict(id="C12", title="Independence tests remove an edge exactly when the p value exceeds the threshold",
 statement="On a skeleton of undirected edges, the correlation step stores the Pearson correlation of the two variables on their edge and keeps every other value of the edge. The unconditional test proposes to remove the edge exactly when the two sided p value of Fisher's z test of that correlation (sample size minus 3) exceeds the threshold, with an empty separating set. The partial correlation test does so for each of the three edges of a triangle given the third node, and the extended tests for the first two nodes given all the others (degrees of freedom reduced by the number of conditioning nodes), when the conditioning nodes are neighbours of the first node. A proposed removal records exactly the conditioning nodes as separating set. Without the edges they need, the tests propose nothing and do not fail.",
 over=["inputs"], forall="every data set and sample size in general position, every threshold, every adjacency of up to five tested nodes",
 why="A wrong degree of freedom, a one sided p value or a wrong coefficient changes the decision only near the threshold; tests use data far away from it.",
 files=["causy/causal_discovery/constraint/independence_tests/common.py","causy/common_pipeline_steps/calculation.py","causy/math_utils.py"], mech=[("independence tests","causy/causal_discovery/constraint/independence_tests/common.py"),("t test","causy/math_utils.py get_t_and_critical_t"),("correlation","causy/common_pipeline_steps/calculation.py CalculatePearsonCorrelations")],
 tech="static analysis: abstract interpretation of each test into its decision as a term over data and graph, equivalence with the textbook decision by random interpretation of the terms"),
dict(id="C15", title="Colliders are oriented exactly by the recorded separating sets",
 statement="On a skeleton, the collider test orients x -> z <- y exactly for non adjacent x and y with common neighbour z that is in none of the separating sets recorded by the removals of the edge x - y; a missing separating set counts as empty, and all removals are considered. With earlier orientations that are not applied yet, keeping the first leaves a conflicting triple alone, and keeping the last restores the edges in question first and then orients the triple; the strategy may be given as enum member or as plain string. The FCI variant marks the same triples.",
 over=["inputs","histories"], forall="every skeleton on three and four nodes, every history of removals with every separating set, every set of pending orientations, both strategies",
 why="Conflicts need several triples sharing an edge and orders of processing that tests only sample.",
 files=["causy/causal_discovery/constraint/orientation_rules/pc.py","causy/causal_discovery/constraint/orientation_rules/fci.py"], mech=[("collider rule","causy/causal_discovery/constraint/orientation_rules/pc.py ColliderTest"),("FCI collider rule","causy/causal_discovery/constraint/orientation_rules/fci.py ColliderRuleFCI")],
 tech=AI+"the rule as a boolean function of all edges, separating sets and pending results"),
dict(id="C16", title="Orientation rules orient exactly the edges the Meek rules justify",
 statement="Each further orientation rule, run on a pair of nodes of a partially directed graph, proposes exactly the orientations that its Meek rule justifies for that pair: the non collider rule orients away from an incoming edge unless that would create a new collider (it may stop at its first candidate), the triple rule prevents a cycle of length three, and both quadruple rules orient their two and one sided patterns. Whatever else is in the graph, nothing else is proposed.",
 over=["inputs"], forall="every partially directed graph with live, missing and soft deleted edges on up to five nodes, every ordered pair",
 why="A weakened or swapped condition only matters on specific partially directed graphs; the tests contain a few of the millions of graphs.",
 files=["causy/causal_discovery/constraint/orientation_rules/pc.py"], mech=[("orientation rules","causy/causal_discovery/constraint/orientation_rules/pc.py NonColliderTest, FurtherOrientTripleTest, OrientQuadrupleTest, FurtherOrientQuadrupleTest")],
 tech=AI+"the rule as a boolean function of all edges"),
dict(id="C18", title="Direct effects are regression coefficients given the other parents",
 statement="For a directed edge, the direct effect written to the edge is the coefficient of the cause in the linear regression of the effect on the cause and all other parents of the effect, no matter what the rest of the graph looks like, and the other values of the edge are kept. For an undirected edge no effect is proposed. (When another neighbour is connected by an undirected edge, either including or leaving out that neighbour is accepted.)",
 over=["inputs"], forall="every centred data set in general position and every directed or mixed neighbourhood of the effect on up to four nodes",
 why="Tests use graphs in which a forgotten parent or a wrong column happens to give almost the same coefficient.",
 files=["causy/causal_effect_estimation/multivariate_regression.py","causy/graph.py"], mech=[("effect estimation","causy/causal_effect_estimation/multivariate_regression.py"),("parents","causy/graph.py parents_of_node")],
 tech="static analysis: abstract interpretation into a term over data and graph, equivalence with the regression coefficient by random interpretation of the terms"),
dict(id="C07", title="Steps, generators and exit conditions only read the graph",
 statement="Processing a combination never changes anything that existed before: not the graph, its nodes, their data, its edges and edge values or its history, not the step or its parameters, and not the pending results it is shown. The result depends only on these inputs, not on chance or time. Generating combinations and checking an exit condition leave the graph, the generator and the actions alone as well. So proposals stay proposals until they are applied, and parallel and sequential workers see the same data.",
 over=["inputs","schedules"], forall="every step, generator and exit condition of the library, every graph on four generic nodes, every set of pending results",
 why="Tests compare outcomes, and a write to shared data is invisible until results are not applied, run in workers or are read again later.",
 files=["causy/causal_discovery/constraint/independence_tests/common.py","causy/causal_discovery/constraint/orientation_rules/pc.py","causy/causal_discovery/constraint/orientation_rules/fci.py","causy/common_pipeline_steps/calculation.py","causy/causal_effect_estimation/multivariate_regression.py","causy/generators.py","causy/common_pipeline_steps/exit_conditions.py"], mech=[("pipeline steps","subclasses of PipelineStepInterface: process"),("generators","causy/generators.py"),("exit conditions","causy/common_pipeline_steps/exit_conditions.py")],
 tech="static analysis: effect analysis by abstract interpretation: every write whose target existed before the call, on every path, is reported"),
dict(id="C13", title="Generators yield every specified combination exactly once",
 statement="For every graph and setting, the all-combinations generator yields every set of nodes of each size from min to max once (0 or a too large max means all nodes, min above max or above the number of nodes yields nothing). The edge generator yields every live directed edge once, per direction, and in chunks of at most the chunk size when chunked. The neighbour generator, on graphs of undirected edges, yields for each size every ordered pair of adjacent nodes with every set of size minus two other neighbours of the first node, once, wrapped in chunks exactly when chunked, whether shuffled or not; a min below 2 is rejected. The random sample keeps each combination of its wrapped generator with probability one in every_nth, in order.",
 over=["inputs","configurations"], forall="every graph of up to four nodes with live, missing and soft deleted edges, every size setting, chunked or not, shuffled or not",
 why="Missing or repeated combinations only show for particular graphs and sizes; they silently skip tests or orientations.",
 files=["causy/generators.py"], mech=[("generators","causy/generators.py")],
 tech=AI+"the required set of guarded combinations"),
dict(id="C17", title="d-separation queries answer as the graphical criterion defines",
 statement="In a DAG, two nodes are reported as d-separated given a set exactly when every path between them is blocked: by a non collider in the set, or by a collider without itself or any descendant in the set. In a CPDAG the same holds over the paths of definite status (each inner node is a collider, or has an outgoing edge on the path, or is unshielded). Soft deleted edges do not count, nodes and the set may be given as nodes or as ids, and a query with one of the two nodes in the set is rejected with an error. The query changes nothing.",
 over=["inputs"], forall="every DAG and every chain graph without flags (so every CPDAG) on up to four nodes (five in the thorough run) plus larger graphs with restricted adjacency, every conditioning set",
 why="Blocking needs combinations of paths, colliders and descendants; the first defect it found needs five nodes and two colliders.",
 files=["causy/graph.py"], mech=[("d-separation","causy/graph.py are_nodes_d_separated_dag, are_nodes_d_separated_cpdag")],
 tech=AI+"the graphical criterion as a boolean function of all edges and the conditioning set, recursion unrolled"),
dict(id="C31", title="Path queries find exactly the paths of live edges and always end",
 statement="On every graph, with cycles and soft deleted edges, directed_path_exists answers whether live edges lead from u to v (for u = v: whether u is on a cycle), descendants_of_node returns u and exactly the nodes that can be reached over edges directed one way, without repetition, directed_paths returns every directed path without repeated nodes once, and all_paths_on_underlying_undirected_graph every path without repeated nodes, ignoring directions, once. They end, do not fail on nodes without edges, accept nodes and ids and change nothing.",
 over=["inputs"], forall="every graph with live, missing and soft deleted edges on up to four nodes (five in the thorough run)",
 why="Cycles, soft deleted edges and several parallel paths have to meet; tests cover single small graphs.",
 files=["causy/graph.py","causy/edge_types.py"], mech=[("reachability","causy/graph.py directed_path_exists, descendants_of_node"),("paths","causy/graph.py all_paths_on_underlying_undirected_graph, causy/edge_types.py directed_paths")],
 tech=AI+"reachability and path sets as boolean functions of all edges, recursion and loops unrolled, repetition of an activation reported as endless"),
dict(id="C04", title="Nodes keep their id, name and data, and ids are unique",
 statement="Adding a node stores it under the given id, or under a fresh unique one, with its name, metadata (an empty dict when none is given) and values: a tensor as it is, anything else as a float64 tensor of the same values in the same order. An id that is taken is rejected with an error and the graph stays unchanged, as it does for values that are no numbers (ValueError). node_by_id returns the node stored under the id, or None. Creating all possible edges connects every pair of different nodes in both directions, and no node with itself.",
 over=["inputs"], forall="every id, name, metadata and value sequence, every set of nodes already there (up to three for the complete graph)",
 why="Tests add a handful of well formed nodes; a wrong dtype, a swallowed duplicate or a partly stored node shows up much later.",
 files=["causy/graph.py"], mech=[("nodes","causy/graph.py add_node, node_by_id"),("complete graph","causy/graph_model.py create_all_possible_edges")],
 tech=AI+"the required node for every input"),
dict(id="C21", title="Algorithm variables reach exactly the steps that refer to them",
 statement="A variable accepts a value only if it has exactly the declared type (a bool is no int, an int is no float) and is one of its choices, if it has any; a default is checked in the same way, and values for the variables of an algorithm are rejected with an error when one of them is invalid or belongs to no variable. Resolving variables gives each declared variable the given value, also when it is falsy, and otherwise its default. In an algorithm that is resolved, each reference in the parameters of a step, at every depth including generators and the steps of nested loops, is replaced by the value of the named variable and nothing else changes; a reference without a value is an error. Dicts {type: reference, name: n} in a definition become references. Building a model uses the given values or else the defaults, keeps the references in original_algorithm and leaves the algorithm of the caller as it was.",
 over=["inputs","configurations"], forall="every value and default, every variable type, references at up to three levels of nesting",
 why="A falsy value, a nested reference or a second model built from the same algorithm are the cases examples leave out.",
 files=["causy/variables.py","causy/graph_model.py","causy/common_pipeline_steps/logic.py"], mech=[("variables","causy/variables.py"),("resolution","causy/variables.py resolve_variables_to_algorithm, resolve_variables_to_algorithm_for_steps"),("factory","causy/graph_model.py graph_model_factory")],
 tech=AI+"the required values at every place of generic step trees"),
dict(id="C28", title="Rows, columns and data loaders give the same nodes with the same values",
 statement="Creating a graph from a list of rows, from a dict of columns or from a data loader gives one node per variable, with the variable as id and name, in the sorted order of the names and holding the values of that variable in row order. The nodes are those of the data given last: data given before to the same model leave nothing behind. A row that lacks a variable of the first row is rejected with an error, never filled in or skipped. The JSON and JSONL loaders yield every row once in order. The type of a loader definition selects its class, which gets the reference and the options; a dynamic loader yields the rows of the loader class it refers to, created with its options if there are any.",
 over=["inputs"], forall="every data with one to three variables and rows of generic values, in every order of the keys",
 why="The order of keys and of rows is the same in all test data, so a misalignment of values and variables is not seen.",
 files=["causy/graph_model.py","causy/data_loader.py"], mech=[("node creation","causy/graph_model.py create_graph_from_data"),("loaders","causy/data_loader.py JSONDataLoader, JSONLDataLoader, DynamicDataLoader, load_data_loader")],
 tech=AI+"the required node list for every order of keys"),
dict(id="C22", title="Algorithms are loaded from inside the working directory only, and as copies",
 statement="load_algorithm_by_reference opens an algorithm file only if it lies, with symbolic links and .. resolved, inside the working directory: everything else, also directories whose path merely starts with the same characters, is rejected with ValueError before it is opened, and everything inside is accepted. A file is read as JSON or else as YAML and is rejected with ValueError if it is neither. An algorithm loaded by name or from a python module is the original definition of exactly that algorithm, with its references to variables, as a deep copy that shares nothing with the registered one; an unknown name is an error. The reference type may be the enum member or its string.",
 over=["inputs","histories"], forall="every relation of a reference to the working directory (inside, above, beside, same prefix, absolute, through symbolic links), every content, every reference type",
 why="There is no test for files, links or sibling directories, and sharing shows only when a second user changes the copy.",
 files=["causy/serialization.py"], mech=[("loading","causy/serialization.py load_algorithm_by_reference")],
 tech=AI+"constant propagation of paths through a table of symbolic links; the set of files that can be opened and the heap reachable from the result"),
dict(id="C23", title="Versions of an experiment are exactly its stored results, newest first",
 statement="A result of an experiment is stored as JSON in <name>_<unix second of its creation>.json, once per execution. In every directory the API lists as versions of an experiment exactly those of its files, numerically newest first, and no other files: not the results of experiments whose name starts or ends with the name, not other json files, no copies and no files of other types, and such files cause no failure. The latest result is the content of the newest one with its version, a requested version is the content of that version, and a version that does not exist is answered with status 400 without opening a file. Clearing or removing an experiment deletes exactly the results of that experiment.",
 over=["inputs","histories"], forall="every order of three stored results with arbitrary timestamps, each next to other files of arbitrary names",
 why="There are no tests of result files; a mixed up prefix or string order needs particular names and timestamps of different length.",
 files=["causy/workspaces/cli.py","causy/ui/server.py"], mech=[("versions","causy/workspaces/cli.py _load_experiment_versions, _load_latest_experiment_result, _load_experiment_result, _save_experiment_result, _clear_experiment"),("API","causy/ui/server.py get_experiments, get_latest_experiment, get_experiment")],
 tech=AI+"file names as strings with symbolic digit and word tokens; files opened, written and deleted in every abstract directory"),
dict(id="C24", title="Workspace commands change exactly what they name, or nothing",
 statement="Removing a pipeline or data loader removes exactly that entry and writes the workspace, unless an experiment uses it or it does not exist: then nothing changes. Removing an experiment removes exactly it. Updating a variable of an experiment converts the text to the declared type (true and false for booleans, in any case), stores it for that variable of that experiment only and writes the workspace; text that cannot be converted, a value that is none of the choices, an unknown variable or an unknown experiment is reported, and nothing is changed or written. The whole workspace is written, to the file it is read from, replacing the old content.",
 over=["inputs","configurations"], forall="every use of two pipelines and data loaders by two experiments, every variable type with and without choices, every text",
 why="There are no tests of the workspace commands.",
 files=["causy/workspaces/cli.py"], mech=[("commands","causy/workspaces/cli.py remove_pipeline, remove_data_loader, remove_experiment, update_experiment_variable"),("store","causy/workspaces/cli.py write_to_workspace, _current_workspace")],
 tech=AI+"the required workspace after each command"),
dict(id="C25", title="Experiments are executed again exactly when something they depend on changed",
 statement="Executing all experiments executes each experiment that has no result, whose newest result lacks the fingerprint of algorithm or data, or for which the fingerprint of its resolved variables, of the algorithm with these variables or of its data differs from the newest result, and skips all others; forced execution and naming an experiment execute always, an unknown experiment never. The fingerprints cover the whole algorithm, the whole content and options of the data and all variables, and depend neither on the order of keys nor on the process. A result is computed from the data of the experiment on the fully connected graph by its pipeline with its variables (defaults for those not given, also if there are none), and records the nodes, edges and action history of the model, the pipeline reference, the resolved variables and the three fingerprints.",
 over=["inputs","histories"], forall="every combination of stored and current fingerprints of two experiments, with and without stored results and variables",
 why="There are no tests of executing workspaces; a change that goes unnoticed needs a particular history of edits.",
 files=["causy/workspaces/cli.py","causy/graph_utils.py","causy/models.py","causy/data_loader.py"], mech=[("re-execution","causy/workspaces/cli.py execute, _experiment_needs_reexecution, _execute_experiment"),("fingerprints","causy/graph_utils.py hash_dictionary, causy/models.py Algorithm.hash, causy/data_loader.py hash")],
 tech=AI+"the condition of execution as a boolean function of stored and current fingerprints; provenance of each field of the result"),
dict(id="C26", title="The HTTP API answers missing things with 404 and bad requests with 400",
 statement="Without a workspace the workspace, experiment list, latest result and version endpoints answer 404, and so does the model endpoint without a model; an unknown experiment is answered with 404 without reading a file, and a stored result that cannot be read with 400. With them, the endpoints answer the loaded model and workspace, and the status reports what is loaded (mode workspace as soon as there is a workspace). The algorithm endpoint answers 400, without loading anything, for references that start with / or contain .. and for reference types other than file, name and python_module; otherwise it loads exactly that reference with that type, answers it, and answers 400 whenever loading fails. Every endpoint is reachable under its own path.",
 over=["inputs","configurations"], forall="every endpoint, with and without model and workspace, every kind of reference and type, every failure",
 why="Tests call a few endpoints with well formed input.",
 files=["causy/ui/server.py"], mech=[("endpoints","causy/ui/server.py get_status, get_model, get_workspace, get_experiments, get_latest_experiment, get_experiment, get_algorithm")],
 tech=AI+"status of each endpoint in every state; shadowing of routes by earlier ones"),
dict(id="C20", title="Algorithm definitions load to exactly the steps and values they name",
 statement="The name under which a step, logic step, generator, comparison setting, exit condition or extension is serialised is the path of its class, and none of its parameters is left out of the serialised form. Loading a definition of a name and parameters gives an object of exactly that class with exactly these values, also if they are false, zero or empty; nested steps, generators, comparison settings and exit conditions become objects of their classes, references become variable references, and everything that is left out has the default of the class. Steps keep their order and the definition itself is not changed. An algorithm loaded from a specification keeps its name, steps, edge types, extensions and variables in order, and has no extensions or variables if the specification has none. (Hooks are not covered.)",
 over=["inputs"], forall="every concrete class of each kind, with symbolic, false, zero and omitted values of its parameters, alone, nested and in sequences",
 why="Tests round-trip the shipped algorithms, which use few of the parameters and almost no value other than the default.",
 files=["causy/serialization.py","causy/variables.py","causy/graph_utils.py","causy/models.py","causy/interfaces.py","causy/generators.py"], mech=[("loading","causy/serialization.py load_algorithm_from_specification, load_pipeline_steps_by_definition, causy/graph_utils.py load_pipeline_steps_by_definition"),("names","causy/graph_utils.py serialize_module_name, causy/serialization.py serialize_module_name"),("variables","causy/variables.py deserialize_variable_references")],
 tech=AI+"the object each definition names, for every class in the program"),
dict(id="C14", title="The PC algorithms run the steps of PC in order, on all nodes and edges",
 statement="PC, PCClassic, PCStable and ParallelPC first compute the correlations of all pairs of nodes, then test independence without conditioning, then with conditioning sets of every size, smaller ones first and each of them completely (a sampled run may precede the complete one), then apply the collider rule once (it sees the orientations that were proposed but not applied yet), then repeat all four orientation rules over all pairs until an iteration changes nothing, and compute the direct effects of every edge last. All tests use the declared variable threshold, a float with default 0.05; every variable that is referenced is declared and every declared variable is used. They work on directed and undirected edges and have no hooks. The registry has PC under PC and ParallelPC under ParallelPC.",
 over=["configurations"], forall="every shipped PC algorithm, every step, generator and variable of its definition",
 why="Tests check the resulting graph for a few data sets where later steps or larger conditioning sets have nothing left to do.",
 files=["causy/causal_discovery/constraint/algorithms/pc.py","causy/causal_discovery/__init__.py","causy/common_pipeline_steps/exit_conditions.py"], mech=[("algorithms","causy/causal_discovery/constraint/algorithms/pc.py"),("registry","causy/causal_discovery/constraint/algorithms/__init__.py AVAILABLE_ALGORITHMS")],
 tech="static analysis: constant propagation of the algorithm definitions into configuration terms, compared with the required sequence of steps"),
dict(id="C19", title="Edges are equal exactly if they are the same connection of the same type",
 statement="Two edges are equal exactly if they have the same type and connect the same nodes, in the same direction if the type is directed and in either direction if it is undirected or bidirected; metadata does not matter, and an edge differs from anything that is not an edge without failing. Edge types are equal exactly if they have the same name, and equal types have equal hashes. DirectedEdge is directed, UndirectedEdge and BiDirectedEdge are not, and the three names DIRECTED, UNDIRECTED and BIDIRECTED stand for them in the table of edge types.",
 over=["inputs"], forall="every pair of edge types and every way in which the end points of two edges can coincide",
 why="Tests compare single edges; the direction of undirected and bidirected edges and the mix of types is not tried.",
 files=["causy/interfaces.py","causy/edge_types.py"], mech=[("equality of edges","causy/interfaces.py EdgeInterface.__eq__, is_connection_between_same_nodes"),("equality of types","causy/interfaces.py EdgeTypeInterface.__eq__"),("table","causy/edge_types.py EDGE_TYPES")],
 tech=AI+"equality as a boolean function of the coincidences of end points"),
dict(id="C30", title="Stored results read back completely, and comparisons show every difference",
 statement="A stored result reads back as the class asked for, with all its fields, its algorithm reference and every edge in order with its end points, metadata and the edge type stored for it, and the stored form is not changed. The comparison of experiments reads the newest result of each named experiment, or the one of the given version, and shows one row for each pair of nodes that has an edge in some of them, with the edge of every result in the order asked for (empty if it has none). A row is marked as equal exactly if all results have the same edge there, and with only differences these rows are left out. Fewer than two names, an unknown experiment or an unknown version show no table.",
 over=["inputs","configurations"], forall="every combination of edge types of a stored result; every pair and several triples of edges between two nodes (none, directed either way, undirected, bidirected, in either order), by name and by version",
 why="There are no tests of comparing experiments, and stored results are read in one test with directed and undirected edges only.",
 files=["causy/serialization.py","causy/workspaces/cli.py","causy/interfaces.py"], mech=[("reading","causy/serialization.py deserialize_result"),("comparison","causy/workspaces/cli.py diff")],
 tech=AI+"the required fields and table rows"),
dict(id="C29", title="Generated samples follow the structural equations of their graph",
 statement="The IID sample generator yields, for every acyclic set of edges in any order and with any names, as many samples of every variable as asked for, each the sum of its causes' samples times the weights of the edges and one draw of noise that no other sample uses. Its graph has one node per variable with these samples as values, and exactly the directed edges given. The time series generator, for lags of at least one step, yields values of every variable for every step; each value after the longest lag of its causes is the sum of the lagged values of the causes times the weights and a draw of noise of its own, and the first one is drawn from a normal distribution with mean 0 and the stationary variance of the process. Its graph has a node <variable>-t<step> with the value of that step, and for each edge and each step that is late enough exactly the directed edge from the lagged step. The default noise is standard normal, and the edges given are not changed.",
 over=["inputs"], forall="every acyclic set of edges between three variables and several between four, several time series with lags of one and two steps, arbitrary weights and noise",
 why="Tests use edges whose names are already in causal order, noise switched off, and mostly a lag of one.",
 files=["causy/sample_generator.py"], mech=[("samples","causy/sample_generator.py IIDSampleGenerator, TimeseriesSampleGenerator")],
 tech=AI+"the structural equations, the stationary variance by random interpretation of the extracted terms"),
dict(id="C32", title="Created entries are complete, under their slug, and refer to what was chosen",
 statement="Adding a pipeline, data loader or experiment to a workspace stores exactly one new entry under the slug of the given name (words joined by underscores), leaves all other parts of the workspace as they were, and writes the workspace with it. A preconfigured pipeline refers by name to the chosen algorithm; an ejected one to the file <slug>.yml, which has the definition of the chosen algorithm with its references to variables; a skeleton to PIPELINE in the module <slug>, which is written. A data loader has the chosen type and refers to the chosen file, or to the written module <slug>. An experiment has the chosen pipeline and data loader and the defaults of all variables of that pipeline. Initialising a workspace writes the given name and author and exactly the entries that were configured, and nothing if overwriting an existing one is declined. The standalone eject writes the definition of the named algorithm to the given file. The standalone execute runs the pipeline file, or else the named algorithm, on the fully connected graph of the JSON data, and writes a result with the nodes, edges and history of the model and a reference to what was executed if an output file is given; without pipeline and algorithm it is rejected.",
 over=["inputs","configurations"], forall="every kind of pipeline and data loader, every name and path, each choice among two entries, every subset of configured entries",
 why="There are no tests of the interactive commands; the defect it found needs a name that differs from its slug.",
 files=["causy/workspaces/cli.py","causy/cli.py"], mech=[("creation","causy/workspaces/cli.py create_pipeline, create_data_loader, create_experiment, init"),("standalone","causy/cli.py eject, execute")],
 tech=AI+"the required workspace, files and model calls for symbolic answers to each question"),
dict(id="C27", title="The same data and algorithm always give the same graph",
 statement="Running the same algorithm with the same variables on the same data gives the same graph and the same action history, in every process and on every run.",
 over=["schedules","inputs"], forall="every hash seed, every schedule of the worker pool and every data set",
 why="Tests run once per process, with one hash seed and one schedule.",
 files=["causy/generators.py","causy/graph_model.py","causy/causal_discovery/constraint/orientation_rules/pc.py"], mech=[("order of combinations","causy/generators.py"),("worker pool","causy/graph_model.py")],
 na="False by design, so there is nothing to show: combinations are shuffled on request, ParallelPC takes results in completion order of its workers and set iteration depends on the hash seed; where order is promised (results applied in order, samples per combination) it is part of C08, C05 and C13."),
dict(id="C33", title="PC recovers the equivalence class of the generating graph from enough data",
 statement="For data generated by a linear Gaussian model that is faithful to an acyclic graph without hidden causes, the graph found by PC is the equivalence class of that graph with a probability that tends to one with the number of samples.",
 over=["inputs"], forall="every faithful linear Gaussian model and every sample of it",
 why="Tests try a few models with fixed seeds.",
 files=["causy/causal_discovery/constraint/algorithms/pc.py"], mech=[("algorithm","causy/causal_discovery/constraint/algorithms/pc.py")],
 na="Quantifies over sampling distributions and limits of estimators, which no argument about the source decides; the deterministic parts it consists of are decided in C12 (tests), C13 (combinations), C14 (order of steps), C15 and C16 (orientation)."),
dict(id="C34", title="The parallel algorithm finds the same graph as the sequential one",
 statement="For every data set ParallelPC and PCStable find the same edges as PC with the same variables.",
 over=["inputs","schedules"], forall="every data set and schedule",
 why="Tests compare them on a few data sets.",
 files=["causy/causal_discovery/constraint/algorithms/pc.py"], mech=[("algorithms","causy/causal_discovery/constraint/algorithms/pc.py")],
 na="Not true of every data set: which edges are left depends on the order in which tests remove edges, which differs between the algorithms; which combinations each tests and how results are applied is decided in C08, C13 and C14."),
dict(id="C35", title="The graph an algorithm returns has no directed cycle",
 statement="For every data set the directed edges of the graph that a PC algorithm returns have no cycle.",
 over=["inputs"], forall="every data set, including ones that contradict every acyclic model",
 why="Tests look at data of acyclic models.",
 files=["causy/causal_discovery/constraint/algorithms/pc.py"], mech=[("orientation rules","causy/causal_discovery/constraint/orientation_rules/pc.py")],
 na="Not promised: with test results that contradict each other (conflicting colliders) the orientation rules can close a cycle, as in every implementation of PC without an acyclicity check; whether they do depends on values of statistics that no static argument bounds. Each single rule is decided in C15 and C16."),
dict(id="C36", title="Partial correlations are accurate to rounding",
 statement="The computed partial correlations, test statistics and direct effects differ from their exact values by rounding only, also for almost collinear variables and for values of very different magnitude.",
 over=["inputs"], forall="every data set",
 why="Tests use well conditioned data.",
 files=["causy/math_utils.py","causy/causal_discovery/constraint/independence_tests/common.py"], mech=[("partial correlation","causy/causal_discovery/constraint/independence_tests/common.py")],
 na="Rounding errors of matrix inversion grow with the condition number of the data, a runtime quantity without a static bound; the formulas as such are decided in C12 and C18."),
dict(id="C37", title="A crash while a workspace or result is stored leaves the old one readable",
 statement="If the process ends at any point while a workspace or a result is written, the files read afterwards are either the old or the new ones, never half of them.",
 over=["crash_points"], forall="every crash point of every writing command",
 why="Tests never interrupt a write.",
 files=["causy/workspaces/cli.py"], mech=[("writing","causy/workspaces/cli.py write_to_workspace")],
 na="Does not hold and is not promised: files are opened for writing and filled in place, so a crash in between leaves part of a file (described in DESIGN.md); a repair means another way of storing files, which is not a small change. What is written is decided in C23, C24 and C25."),
]
